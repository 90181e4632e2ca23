SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
Depth = 1
INVARIANTS
Ring
Ivl
LostOnly
