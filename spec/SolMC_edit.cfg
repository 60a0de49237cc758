SPECIFICATION Spec
CONSTANTS Dom = {"0","1"}  N = 4  Ops = {"step","con","reset","solve"}
VIEW View
INVARIANTS Verdict Covered Bounded Sane
CHECK_DEADLOCK FALSE
