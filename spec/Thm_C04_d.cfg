SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  DIR = TRUE
  LOOPS = TRUE
  WS <- WS_1
INVARIANTS
  HopIsShortestWalk
  DescendantsAccepted
  AncestorsAreDescendantsOfTheReverse
  ConnectedAccepted
  LCAExists
  HopMetric
