SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b", "c"}
  MaxSteps = 4
  MaxList = 2
VIEW View
INVARIANTS NeverOver Confluent
PROPERTY Closed
CHECK_DEADLOCK FALSE
