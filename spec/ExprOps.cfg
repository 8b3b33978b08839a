SPECIFICATION Spec
CONSTANTS
  MaxLen = 7
  Deep = FALSE
  Alphabet = {"n", "(", ")", "+", "-", "*", "/", "^"}
INVARIANTS AgreeWithGrammar StackShape NoJunk
CONSTRAINT EmitGood
CHECK_DEADLOCK FALSE
