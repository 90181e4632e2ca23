SPECIFICATION Spec
CONSTANTS
MaxLen = 6
INVARIANTS Sorted LastWritten
CHECK_DEADLOCK FALSE
