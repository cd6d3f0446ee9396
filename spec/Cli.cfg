CONSTANTS
    MaxArgs = 4
SPECIFICATION Spec
INVARIANTS Right ZeroOnlyIfWritten NotStuck
CHECK_DEADLOCK FALSE
