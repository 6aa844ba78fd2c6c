SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 4
  DIR = FALSE
  LOOPS = FALSE
  WS <- WS_0_1_3
INVARIANTS
  Answer
  Sound
