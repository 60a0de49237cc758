SPECIFICATION Spec
CONSTANTS Dom = {"0","1","2"}  N = 6  Ops = {"step","solve","reset","jump"}
VIEW View
INVARIANTS Verdict Covered Bounded Sane
CHECK_DEADLOCK FALSE
