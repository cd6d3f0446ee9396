CONSTANTS
  Base = 3
  A = 2
  N = 5
  P = 2
SPECIFICATION Spec
INVARIANTS Exact
PROPERTIES Ends
CHECK_DEADLOCK FALSE
