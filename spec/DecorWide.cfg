SPECIFICATION Spec
CONSTANTS
  MaxItems = 60
  Consts = {"c1", "c2", "c3", "c4", "c5", "c6", "c7"}
  Unknowns = {"x", "y", "z", "x1", "x3", "x4", "x5", "x6"}
  Idle = {"u", "u2"}
  Subs = {"s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11", "s12", "s13", "s14", "s15", "s16", "s17", "s18"}
  Other = {"o"}
INVARIANTS Meaning AnyOrder Untouched
CHECK_DEADLOCK FALSE
