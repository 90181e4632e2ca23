SPECIFICATION Spec
INVARIANTS NeverLies NeverWithdrawn Complete Lazy DeMorgan TypesNeverLie
CHECK_DEADLOCK FALSE
