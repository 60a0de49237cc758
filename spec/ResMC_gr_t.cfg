SPECIFICATION Spec
CONSTANTS Prof = "GroundedProfile"  Toks = {"k0","k1","k2"}  Kind = "rv"  Ops = {"t","c"}  Pend = 1
VIEW View
INVARIANTS Fresh Extremes Meaning
CHECK_DEADLOCK FALSE
