SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  DIR = FALSE
  LOOPS = TRUE
  WS <- WS_1
INVARIANTS
  HopIsShortestWalk
  LayersAccepted
  HopMetric
