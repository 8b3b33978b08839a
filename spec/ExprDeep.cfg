SPECIFICATION DeepSpec
CONSTANTS
  MaxLen = 30
  Deep = TRUE
  Alphabet = {"n", "k", "v", "f1", "f2", "f3", "f5", "(", ")", ",", "+", "-", "*", "/", "^", "u"}
INVARIANTS AgreeWithGrammar NoJunk
CHECK_DEADLOCK FALSE
