SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 2
  DIR = TRUE
  LOOPS = TRUE
  WS <- WS_1
  GROUP = "recip"
INVARIANTS
  NeverWrong
  Available
