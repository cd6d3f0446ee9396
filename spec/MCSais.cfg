CONSTANTS
    K = 2
    N = 8
    FreeMax = 0
    Inputs <- AllInputs
    Free <- AllFree
SPECIFICATION Spec
INVARIANTS SortedAtReturn StarsSorted Fits Layout ReducedSmaller NotStuck
CHECK_DEADLOCK FALSE
