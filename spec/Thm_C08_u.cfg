SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 4
  DIR = FALSE
  LOOPS = FALSE
  WS <- WS_1_2_5
INVARIANTS
  WDistIsSimplePathMinimum
  WDistFeasible
  UnitWeightsAreHops
