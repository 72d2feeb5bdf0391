CONSTANTS First = 1900  Last = 9999
SPECIFICATION CSpec
INVARIANTS CountsDays Anchors
CHECK_DEADLOCK FALSE
