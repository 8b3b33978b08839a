SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Alphabet = {"1", ".", "e", "x", "_", "-", "*", " "}
INVARIANTS SameWords
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
