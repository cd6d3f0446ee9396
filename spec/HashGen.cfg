CONSTANTS
    Steps = 5
    Strs = 5
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
