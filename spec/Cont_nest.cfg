SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW Hidden
CONSTANTS
  K = 2
  VALS <- VALS_2
  FILLS <- FILLS_2
  NEST = TRUE
  EMIT = FALSE
INVARIANTS
  Accepted
  Refines
  RowsRight
