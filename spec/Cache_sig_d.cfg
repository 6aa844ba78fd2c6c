SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 2
  DIR = TRUE
  LOOPS = TRUE
  WS <- WS_m1_0_2
  GROUP = "signs"
INVARIANTS
  NeverWrong
  Available
