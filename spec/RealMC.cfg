SPECIFICATION Spec
CONSTANTS
 N = 4
 Range = 8
INVARIANTS
 Contains
 Accurate
 Consistent
 NeverLies
PROPERTY Terminates
