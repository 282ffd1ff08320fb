SPECIFICATION Spec
CONSTANTS SIZES = {"10-1"} SCEN = {1, 11} IDS = {1, 11} KINDSOF = {0} RISKS = {1, 11} METHODS = {1} FAULT = "none"
INVARIANT Inv
PROPERTY Complete
CHECK_DEADLOCK FALSE
