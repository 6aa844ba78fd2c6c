SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 4
  DIR = TRUE
  LOOPS = FALSE
  WS <- WS_m1_1
INVARIANTS
  WDistIsSimplePathMinimum
  NegativeCycles
  WDistFeasible
