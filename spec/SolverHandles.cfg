SPECIFICATION Spec
CONSTANTS
  Names = {"x", "y", "z", "k", "w"}
  Slots = {1, 2}
  UseDom = TRUE
  MaxOps = 60
INVARIANTS Counted Satisfied
CHECK_DEADLOCK FALSE
