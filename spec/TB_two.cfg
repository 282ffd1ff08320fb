SPECIFICATION Spec
CONSTANTS JJ = 2 KINDS = 4 FAULT = "none"
INVARIANT Inv
PROPERTY Ends
CHECK_DEADLOCK FALSE
