SPECIFICATION Spec
CONSTANTS Dom = {"0","1","2"}  N = 6  Ops = {"step","con","reset","solve","jump"}
VIEW View
INVARIANTS Verdict Covered Bounded Sane
CHECK_DEADLOCK FALSE
