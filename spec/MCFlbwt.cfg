CONSTANTS
    A = 2
    N = 7
    Texts <- AllTexts
SPECIFICATION Spec
INVARIANTS DecompositionOK NamesOK ShortenedOK LRowOK QueueOrder EntryOK WritesInBucket ResultOK NothingLeft DecodesOK NotStuck
CHECK_DEADLOCK FALSE
