SPECIFICATION Spec
CONSTANTS R = 5  Gen = TRUE
INVARIANTS MeetIsMeet SubIsSub InterIsInter EqualIsEqual SizeIsSize
CHECK_DEADLOCK FALSE
