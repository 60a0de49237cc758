SPECIFICATION Spec
CONSTANTS Chain = TRUE  Ops = {"before","free","cancel"}  Lines0 = {"o0"}  Rules = FALSE  MaxSteps = 7  Queries = FALSE
VIEW View
INVARIANTS LifeCycle Ownership Timelines Total
CHECK_DEADLOCK FALSE
