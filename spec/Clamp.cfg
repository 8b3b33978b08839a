SPECIFICATION Spec
CONSTANTS
  MaxSteps = 2
INVARIANT InDomain
PROPERTIES
  DomainFixed
  Result
VIEW View
CHECK_DEADLOCK FALSE
