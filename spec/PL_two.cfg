SPECIFICATION Spec
CONSTANTS SIZES = {"10-1", "1-10"} SCEN = {1, 11} IDS = {1} KINDSOF = {0, 1} RISKS = {1} METHODS = {1} FAULT = "none"
INVARIANT Inv
PROPERTY Complete
CHECK_DEADLOCK FALSE
