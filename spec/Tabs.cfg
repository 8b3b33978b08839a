SPECIFICATION Spec
CONSTANTS
  MaxFiles = 9
  MaxOps = 24
  Names = {"n1", "n2", "n3", "n4"}
INVARIANTS OnceOpen Listed Shown
CHECK_DEADLOCK FALSE
