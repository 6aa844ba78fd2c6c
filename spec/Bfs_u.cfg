SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 4
  DIR = FALSE
  LOOPS = FALSE
  WS <- WS_1
INVARIANTS
  LoopInvariant
  Answer
PROPERTIES
  Terminates
