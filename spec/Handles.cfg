SPECIFICATION HSpec
CONSTANTS
  Regs = {"A", "B", "C", "D"}
  MaxDim = 6
  MaxOps = 30
  Lim = 1000
  Unit = 1
INVARIANTS Clean Inverts Shapes
CHECK_DEADLOCK FALSE
