SPECIFICATION SpecH
CONSTANTS N = 4 P = 2 K = 2 O = 2
          MERGE = FALSE CLOCK = FALSE FAULT = "none"
INVARIANT Iterations
PROPERTIES NoRepeat
CHECK_DEADLOCK FALSE
