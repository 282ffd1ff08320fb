SPECIFICATION SpecH
CONSTANTS N = 5 P = 1 K = 3 O = 1
          MERGE = TRUE CLOCK = FALSE FAULT = "none"
INVARIANT Iterations
PROPERTIES NoRepeat
CHECK_DEADLOCK FALSE
