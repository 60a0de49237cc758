SPECIFICATION Spec
CONSTANTS Chain = FALSE  Ops = {"act","before","free","cancel","restr","con"}  Lines0 = {"o0"}  Rules = FALSE  MaxSteps = 7  Queries = TRUE
VIEW View
INVARIANTS LifeCycle Ownership Timelines Total Undone Offers Imposed
CHECK_DEADLOCK FALSE
