CONSTANTS
    A = 3
    N = 2
    Buffer = 9
    Inputs <- SomeInputs
    Olds <- SomeOlds
SPECIFICATION GSpec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
