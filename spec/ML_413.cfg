SPECIFICATION Spec
CONSTANTS N = 4 P = 1 K = 3 O = 2
INVARIANTS QuantileBound QuantileUniform FirstBound DealtBound Relaxation Finest Projections SplitLemma RefineExists MergeLemma CostMonotone PruneLemma SplitCostLemma CandidateLemma ShiftLemma
CHECK_DEADLOCK FALSE
