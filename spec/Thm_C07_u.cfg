SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 4
  DIR = FALSE
  LOOPS = FALSE
  WS <- WS_m1_0_1
INVARIANTS
  WDistIsSimplePathMinimum
  NegativeCycles
  BfPathAccepted
