SPECIFICATION SpecH
CONSTANTS N = 4 P = 1 K = 3 O = 2
          MERGE = TRUE CLOCK = FALSE FAULT = "none"
INVARIANT Iterations
PROPERTIES NoRepeat
CHECK_DEADLOCK FALSE
