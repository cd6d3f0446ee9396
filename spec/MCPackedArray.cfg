CONSTANTS
    W = 4
    MaxCells = 3
SPECIFICATION Spec
INVARIANTS TypeOK InBounds ReadsBack Layout
PROPERTIES OthersUntouched
CHECK_DEADLOCK FALSE
