CONSTANTS
    MaxArgs = 3
SPECIFICATION GSpec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
