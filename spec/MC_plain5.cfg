SPECIFICATION Spec
CONSTANTS N = 5 P = 1 K = 3 O = 1
          MERGE = FALSE CLOCK = TRUE FAULT = "none"
INVARIANT Inv
PROPERTIES Monotone StepRefines StepMerges Terminates
CHECK_DEADLOCK FALSE
