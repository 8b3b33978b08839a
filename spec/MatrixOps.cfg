SPECIFICATION Spec
CONSTANTS
  Regs = {"A", "B", "C", "D"}
  MaxDim = 8
  MaxOps = 24
  Lim = 120
  Unit = 1
INVARIANTS Laws Shapes
CHECK_DEADLOCK FALSE
