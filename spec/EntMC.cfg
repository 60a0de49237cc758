SPECIFICATION Spec
CONSTANTS Keys <- K3  MaxQ = 4  MaxH = 4
VIEW View
INVARIANTS Unique Referenced Handles Managed
CHECK_DEADLOCK FALSE
