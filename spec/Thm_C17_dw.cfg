SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  DIR = TRUE
  LOOPS = FALSE
  WS <- WS_1_3
INVARIANTS
  PageRankContracts
