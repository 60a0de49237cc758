SPECIFICATION Spec
CONSTANTS Chain = FALSE  Ops = {"act","before","free","cancel","restr","con","mrg","spec"}  Lines0 = {"o0","o1"}  Rules = FALSE  MaxSteps = 9  Queries = TRUE
VIEW View
INVARIANTS LifeCycle Ownership Timelines Total Undone Offers Imposed
CHECK_DEADLOCK FALSE
