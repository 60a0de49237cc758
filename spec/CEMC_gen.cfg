SPECIFICATION Spec
CONSTANTS NV = 3  MaxC = 2  Gen = TRUE  HMax = 0
VIEW View
INVARIANTS Sound Refuted GroundComplete HistoryIndependent VerdictIndependent
CHECK_DEADLOCK FALSE
