SPECIFICATION Spec
CONSTANTS O = 4
          J = 4
          FAULT = "none"
INVARIANT Inv
PROPERTY NoLate
PROPERTY Written
CHECK_DEADLOCK FALSE
