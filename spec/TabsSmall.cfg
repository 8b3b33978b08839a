SPECIFICATION SmallSpec
CONSTANTS
  MaxFiles = 9
  MaxOps = 9
  Names = {"n1", "n2"}
INVARIANTS OnceOpen Listed Shown
VIEW View
CHECK_DEADLOCK FALSE
