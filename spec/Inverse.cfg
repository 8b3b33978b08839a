SPECIFICATION Spec
CONSTANTS
  MaxN = 8
  MaxOps = 20
  Lim = 60
  LimInv = 2000
INVARIANT Inverse
CHECK_DEADLOCK FALSE
