SPECIFICATION Spec
CONSTANTS
 P = 2
INVARIANTS Contains Ordered SharpInv Witness CmpInv
CHECK_DEADLOCK FALSE
