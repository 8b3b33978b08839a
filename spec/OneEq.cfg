SPECIFICATION OSpec
CONSTANTS
  MaxRoot = 4
  MaxDeg = 3
  Reach = 5
  MaxSolves = 6
INVARIANT Sound
CHECK_DEADLOCK FALSE
