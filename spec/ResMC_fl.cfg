SPECIFICATION Spec
CONSTANTS Prof = "FlowProfile"  Toks = {"k0","k1"}  Kind = "rv"  Ops = {"t","c"}  Pend = 1
VIEW View
INVARIANTS Fresh Extremes Meaning
CHECK_DEADLOCK FALSE
