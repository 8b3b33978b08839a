SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Alphabet = {"0", "2", ".", "^", "-", "/"}
INVARIANTS SameWords
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
