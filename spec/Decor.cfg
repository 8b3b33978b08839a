SPECIFICATION Spec
CONSTANTS
  MaxItems = 24
  Consts = {"c1", "c2", "c3"}
  Unknowns = {"x", "y", "z"}
  Idle = {"u"}
  Subs = {"s1"}
  Other = {"o"}
INVARIANTS Meaning AnyOrder Untouched
CHECK_DEADLOCK FALSE
