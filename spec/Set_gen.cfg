SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW Hidden
CONSTANTS
  EMIT = TRUE
INVARIANTS
  Accepted
  Refines
