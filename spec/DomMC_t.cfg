SPECIFICATION Spec
CONSTANTS R = 8  Gen = TRUE
INVARIANTS MeetIsMeet SubIsSub InterIsInter EqualIsEqual SizeIsSize Accepts
CHECK_DEADLOCK FALSE
