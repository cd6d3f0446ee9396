CONSTANTS
    MaxMoves = 2
    Widths = {32, 40, 48, 56, 64}
SPECIFICATION Spec2
INVARIANTS Small
CHECK_DEADLOCK FALSE
