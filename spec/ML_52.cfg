SPECIFICATION Spec
CONSTANTS N = 5 P = 2 K = 3 O = 1
INVARIANTS QuantileBound QuantileUniform FirstBound DealtBound Relaxation Finest Projections SplitLemma RefineExists MergeLemma CostMonotone PruneLemma SplitCostLemma CandidateLemma ShiftLemma
CHECK_DEADLOCK FALSE
