SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 2
  DIR = TRUE
  LOOPS = TRUE
  WS <- WS_m1_1
  GROUP = "triangles"
INVARIANTS
  NeverWrong
  Available
