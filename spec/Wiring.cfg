CONSTANTS
    MaxNodes = 5
    MaxEls = 8
    MaxSteps = 70
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
