CONSTANTS
    Procs = {1, 2}
    C = 1
    Len_ = 4
    Shared = FALSE
    M = 2
SPECIFICATION GSpec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
