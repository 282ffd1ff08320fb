SPECIFICATION Spec
CONSTANTS N = 5 P = 2 K = 3 O = 1
          MERGE = TRUE CLOCK = TRUE FAULT = "none"
INVARIANT Inv
PROPERTIES Monotone StepRefines StepMerges Terminates
CHECK_DEADLOCK FALSE
