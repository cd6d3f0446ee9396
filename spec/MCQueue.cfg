CONSTANTS
    Q = 3
    Values = {1, 2}
    MaxLen = 7
SPECIFICATION Spec
INVARIANTS Refines EmptyOK EndsMeet NoWaste
PROPERTIES FrontOK
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
