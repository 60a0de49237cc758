SPECIFICATION Spec
CONSTANTS Chain = TRUE  Ops = {"before","free","cancel","act"}  Lines0 = {"o0"}  Rules = FALSE  MaxSteps = 8  Queries = FALSE
VIEW View
INVARIANTS LifeCycle Ownership Timelines Total
CHECK_DEADLOCK FALSE
