SPECIFICATION Spec
CONSTANTS Prof = "TimetableProfile"  Toks = {"k0","k1","k2"}  Kind = "rv"  Ops = {"q","t"}  Pend = 1
VIEW View
INVARIANTS Fresh Extremes Meaning
CHECK_DEADLOCK FALSE
