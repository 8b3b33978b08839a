SPECIFICATION Spec
CONSTANTS
  MaxSteps = 3
  Ctxs = {"A", "B"}
  MaxFuns = 2
INVARIANT InDomain
PROPERTY OnlyCalls
VIEW View
CHECK_DEADLOCK FALSE
