SPECIFICATION Spec
CONSTANTS
  MaxPts = 3
INVARIANTS
  Sound
  First
  Emit
CHECK_DEADLOCK FALSE
