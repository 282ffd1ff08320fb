SPECIFICATION Spec
CONSTANTS NV = 2 NR = 2 NS = 3 FAULT = "none"
INVARIANT Inv
PROPERTY Ends
CHECK_DEADLOCK FALSE
