SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 5
  DIR = FALSE
  LOOPS = FALSE
  WS <- WS_1
INVARIANTS
  SquareCount
  TriangleCount
