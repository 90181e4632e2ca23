CONSTANTS
 M = 2
SPECIFICATION Spec
INVARIANT SubsetOk
INVARIANT MeetOk
INVARIANT DisjOk
INVARIANT InsideOk
INVARIANT InterOk
INVARIANT HullOk
INVARIANT OverlapOk
CHECK_DEADLOCK FALSE
