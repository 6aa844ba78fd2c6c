SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 4
  DIR = TRUE
  LOOPS = FALSE
  WS <- WS_1
INVARIANTS
  HopIsShortestWalk
  DescendantsAccepted
  ConnectedAccepted
  LCAExists
  HopMetric
