CONSTANTS
    BASE = 4
    BLOCK = 14
    RESET = 6
    LINK = 4
    NAMES = 1
    HSIZE = 2
    Strings <- Strs
    Garbage = {0, 3}
    MaxOps = 6
SPECIFICATION Spec
INVARIANTS ExactSet FindExact OnceEach NamesKept SentinelOK RestOK InsideBuffer NoOverlap
PROPERTIES InsertReports
CHECK_DEADLOCK FALSE
