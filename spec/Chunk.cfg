SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxN = 14
INVARIANTS
  Cover
  Bounded
  Fewest
PROPERTIES
  Terminates
