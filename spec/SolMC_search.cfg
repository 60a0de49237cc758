SPECIFICATION Spec
CONSTANTS Dom = {"0","1","2"}  N = 3  Ops = {"step","solve","reset","jump"}
VIEW View
INVARIANTS Verdict Covered Bounded Sane
CHECK_DEADLOCK FALSE
