SPECIFICATION Spec
CONSTANTS
  MaxRoot = 4
  MaxDeg = 4
  Reach = 6
INVARIANTS
  IsRoot
  Beyond
  Emit
CHECK_DEADLOCK FALSE
