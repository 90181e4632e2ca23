SPECIFICATION Spec
CONSTANTS
 Keys = {k1,k2,k3,k4,k5,k6}
 Max = 4
INVARIANTS
 Refines
 Bounded
 Distinct
