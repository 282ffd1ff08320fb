SPECIFICATION Spec
CONSTANTS JJ = 3 KINDS = 3 FAULT = "none"
INVARIANT Inv
PROPERTY Ends
CHECK_DEADLOCK FALSE
