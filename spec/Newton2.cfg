SPECIFICATION Spec
CONSTANTS
  MaxPts = 2
  Wide = FALSE
INVARIANTS
  Sound
  Emit
PROPERTY OneStep
CHECK_DEADLOCK FALSE
