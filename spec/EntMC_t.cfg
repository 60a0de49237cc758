SPECIFICATION Spec
CONSTANTS Keys <- K3  MaxQ = 6  MaxH = 6
VIEW View
INVARIANTS Unique Referenced Handles Managed
CHECK_DEADLOCK FALSE
