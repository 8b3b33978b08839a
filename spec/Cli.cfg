SPECIFICATION Spec
CONSTANTS
  MaxRuns = 14
INVARIANT Safe
CHECK_DEADLOCK FALSE
