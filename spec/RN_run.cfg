SPECIFICATION Spec
CONSTANTS O = 2
          J = 2
          FAULT = "none"
INVARIANT Inv
PROPERTY NoLate
PROPERTY Written
CHECK_DEADLOCK FALSE
