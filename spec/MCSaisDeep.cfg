CONSTANTS
    Level = 4
    Inputs <- DeepInputs
    Free <- SomeFree
SPECIFICATION Spec
INVARIANTS SortedAtReturn StarsSorted Fits Layout ReducedSmaller NotStuck
CHECK_DEADLOCK FALSE
