SPECIFICATION Spec
CONSTANTS Prof = "FlowProfile"  Toks = {"k0","k1"}  Kind = "ru"  Ops = {"q","t","c"}  Pend = 2
VIEW View
INVARIANTS Fresh Extremes Meaning
CHECK_DEADLOCK FALSE
