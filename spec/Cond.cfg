SPECIFICATION Spec
CONSTANTS
  MaxBlocks = 3
  MinBlocks = 1
  MaxDepth = 3
  Chain = FALSE
  Consts = {"c1", "c2", "c3"}
INVARIANTS Encoded Single
CHECK_DEADLOCK FALSE
