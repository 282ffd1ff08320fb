SPECIFICATION SpecR
CONSTANTS N <- LogN
          P <- LogP
          K = 1 O = 1
          MERGE <- LogMerge
          CLOCK = FALSE FAULT = "none"
INVARIANT Inv
CHECK_DEADLOCK FALSE
