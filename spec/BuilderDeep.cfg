SPECIFICATION DeepSpec
CONSTANTS
  Names = {"a", "b", "c", "d", "f", "g", "h", "k"}
  MaxSteps = 25
  MaxList = 4
INVARIANTS NeverOver
PROPERTY Closed
CHECK_DEADLOCK FALSE
