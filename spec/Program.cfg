SPECIFICATION Spec
CONSTANTS
  MinBlocks = 1
  MaxBlocks = 4
  MaxBlock = 4
  MaxEntry = 5
  Fault = "any"
INVARIANTS Confluent Inside
CHECK_DEADLOCK FALSE
