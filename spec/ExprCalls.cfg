SPECIFICATION Spec
CONSTANTS
  MaxLen = 9
  Deep = FALSE
  Alphabet = {"n", "(", ")", ",", "f1", "f2", "f3", "-", "+"}
INVARIANTS AgreeWithGrammar StackShape NoJunk
CONSTRAINT EmitGood
CHECK_DEADLOCK FALSE
