SPECIFICATION Spec
INVARIANTS Correct Restored
CONSTANT P = 2
CHECK_DEADLOCK FALSE
