SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Deep = FALSE
  Alphabet = {"n", "v", "f1", "f2", "f3", "(", ")", ",", "+", "-", "*", "/", "^", "u"}
INVARIANTS AgreeWithGrammar StackShape NoJunk
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
