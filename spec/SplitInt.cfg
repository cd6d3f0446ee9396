CONSTANTS
    LO = 2
    MI = 1
    HI = 2
    Cells = 2
SPECIFICATION Spec
INVARIANTS ReadsBack WholeRange
CHECK_DEADLOCK FALSE
