SPECIFICATION Spec
INVARIANTS Solved
CHECK_DEADLOCK FALSE
