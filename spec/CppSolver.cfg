SPECIFICATION CSpec
CONSTANTS
  Names = {"x", "y", "z", "k", "w"}
  Slots = {1, 2}
  UseDom = TRUE
  MaxOps = 60
INVARIANTS Counted Gone
CHECK_DEADLOCK FALSE
