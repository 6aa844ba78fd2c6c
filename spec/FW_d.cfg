SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  DIR = TRUE
  LOOPS = FALSE
  WS <- WS_m1_0_2
INVARIANTS
  AnswerD
  AnswerP
  Sound
