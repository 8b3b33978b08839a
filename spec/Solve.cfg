SPECIFICATION SSpec
CONSTANTS
  MaxN = 7
  MaxEntry = 6
  MaxSpecs = 9
INVARIANTS SRegular Accepted
CHECK_DEADLOCK FALSE
