SPECIFICATION Spec
CONSTANTS
  Unknowns = {"x1", "x2", "x3", "x4", "x5", "x6", "x7"}
  Consts = {"c1", "c2", "c3"}
  \* constants that no equation uses
  Idle = {"d1"}
  \* names that nothing determines
  Spare = {"u1", "u2"}
  Depth = 3
INVARIANTS AllHold AllEven Ordered Determined InDomain
CHECK_DEADLOCK FALSE
