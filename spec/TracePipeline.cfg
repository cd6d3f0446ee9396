CONSTANTS
    A = 3
    Texts <- TextsOfTrace
SPECIFICATION TSpec
INVARIANTS NoMisuse Decomposed Named Shortened Sorted Induced
CHECK_DEADLOCK FALSE
