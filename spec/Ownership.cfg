CONSTANTS
    MaxMoves = 2
    Widths = {32, 40, 48, 56, 64}
SPECIFICATION Spec
INVARIANTS NotStuck EndClean TextKept TextGone
CHECK_DEADLOCK FALSE
