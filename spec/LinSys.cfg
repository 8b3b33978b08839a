SPECIFICATION Spec
CONSTANTS
  MaxN = 7
  MaxEntry = 9
INVARIANT Regular
CHECK_DEADLOCK FALSE
