SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS Order Commute Inverse Monotone Absorb Inside DivRem
CHECK_DEADLOCK FALSE
