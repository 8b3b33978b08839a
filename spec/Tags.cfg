SPECIFICATION Spec
CONSTANTS
  MaxOps = 24
  TagIds = {"t1", "t2", "t3", "t4", "t5"}
  Labels = {"A", "B", "C"}
INVARIANTS OneEach Known Tables
CHECK_DEADLOCK FALSE
