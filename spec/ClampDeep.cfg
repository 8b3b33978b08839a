SPECIFICATION DeepSpec
CONSTANTS
  MaxSteps = 25
INVARIANT InDomain
PROPERTIES
  DomainFixed
  Result
CHECK_DEADLOCK FALSE
