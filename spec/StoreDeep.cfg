SPECIFICATION DeepSpec
CONSTANTS
  MaxSteps = 30
  Ctxs = {"A", "B", "C"}
  MaxFuns = 5
INVARIANT InDomain
PROPERTY OnlyCalls
CHECK_DEADLOCK FALSE
