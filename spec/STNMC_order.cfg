SPECIFICATION Spec
CONSTANTS Pts = {"a","b"}  Pool <- Small  MaxC = 3  Gen = FALSE
VIEW View
INVARIANTS Verdict Exact Potentials Bounded
CHECK_DEADLOCK FALSE
