SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  DIR = FALSE
  LOOPS = TRUE
  WS <- WS_m1_0_1_2
INVARIANTS
  WDistIsSimplePathMinimum
  NegativeCycles
  WDistFeasible
