SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS Order Commute Inverse Monotone Absorb Inside DivRem
CHECK_DEADLOCK FALSE
