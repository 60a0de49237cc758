SPECIFICATION Spec
CONSTANTS Pts = {"a","b"}  Pool <- Tiny  MaxC = 3  Gen = TRUE
VIEW View
INVARIANTS Verdict Exact Potentials Bounded
CHECK_DEADLOCK FALSE
