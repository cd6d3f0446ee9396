CONSTANTS
    Procs = {1, 2}
    C = 2
    Len_ = 3
    Shared = TRUE
    M = 2
SPECIFICATION Spec
INVARIANTS Independent
CHECK_DEADLOCK FALSE
