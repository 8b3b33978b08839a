SPECIFICATION Spec
CONSTANTS
  MaxSteps = 30
INVARIANT Built
CHECK_DEADLOCK FALSE
