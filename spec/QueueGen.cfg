CONSTANTS
    QSIZ = 1024
    Steps = 4
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
