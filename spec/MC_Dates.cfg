CONSTANTS First = 1900  Last = 2110
SPECIFICATION CSpec
INVARIANTS CountsDays Anchors
CHECK_DEADLOCK FALSE
