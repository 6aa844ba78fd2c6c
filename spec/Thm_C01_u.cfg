SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 4
  DIR = FALSE
  LOOPS = TRUE
  WS <- WS_3
INVARIANTS
  ReductionsAgree
  RecipTotals
  WellFormedAlways
