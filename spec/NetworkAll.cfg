SPECIFICATION SpecE
CONSTANTS
  MaxN = 0
  MaxExtra = 0
  MaxE = 3
INVARIANTS SoundE EmitE
CHECK_DEADLOCK FALSE
