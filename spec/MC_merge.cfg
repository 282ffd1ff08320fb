SPECIFICATION Spec
CONSTANTS N = 4 P = 1 K = 2 O = 2
          MERGE = TRUE CLOCK = TRUE FAULT = "none"
INVARIANT Inv
PROPERTIES Monotone StepRefines StepMerges Terminates
CHECK_DEADLOCK FALSE
