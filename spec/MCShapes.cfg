CONSTANTS
  N = 8
SPECIFICATION Spec
INVARIANTS ClosedForm
CHECK_DEADLOCK FALSE
