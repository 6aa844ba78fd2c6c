SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW Hidden
CONSTANTS
  EMIT = FALSE
INVARIANTS
  Accepted
  Refines
