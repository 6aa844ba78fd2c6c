SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  DIR = TRUE
  LOOPS = TRUE
  WS <- WS_m1_1
INVARIANTS
  Answer
