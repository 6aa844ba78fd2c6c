SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW Hidden
CONSTANTS
  K = 3
  VALS <- VALS_2
  FILLS <- FILLS_2
  NEST = FALSE
  EMIT = FALSE
INVARIANTS
  Accepted
  Refines
  RowsRight
