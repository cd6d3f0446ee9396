CONSTANTS
  Base = 3
  A = 3
  N = 6
SPECIFICATION Spec
INVARIANTS Exact
CHECK_DEADLOCK FALSE
