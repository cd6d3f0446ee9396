SPECIFICATION Spec
INVARIANTS Length Chosen SmallLengths
CHECK_DEADLOCK FALSE
