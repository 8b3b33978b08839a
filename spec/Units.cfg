SPECIFICATION Spec
CONSTANTS
  Mode = "table"
  MaxSteps = 6
INVARIANTS Conserved Back
CHECK_DEADLOCK FALSE
