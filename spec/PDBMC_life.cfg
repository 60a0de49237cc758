SPECIFICATION Spec
CONSTANTS Chain = FALSE  Ops = {"act","mrg","cancel","deltok","rejt","spec","con"}  Lines0 = {"o0"}  Rules = TRUE  MaxSteps = 6  Queries = TRUE
VIEW View
INVARIANTS LifeCycle Ownership Timelines Total Undone Offers Imposed
CHECK_DEADLOCK FALSE
