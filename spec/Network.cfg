SPECIFICATION Spec
CONSTANTS
  MaxN = 7
  MaxExtra = 8
  MaxE = 0
INVARIANT Sound
CHECK_DEADLOCK FALSE
