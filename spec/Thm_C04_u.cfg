SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 4
  DIR = FALSE
  LOOPS = TRUE
  WS <- WS_1
INVARIANTS
  HopIsShortestWalk
  DescendantsAccepted
  ConnectedAccepted
  ComponentsPartition
  HopMetric
