CONSTANTS
    A = 3
    N = 2
    Buffer = 9
    Inputs <- SomeInputs
    Olds <- SomeOlds
SPECIFICATION Spec
INVARIANTS Written Rejected Complete Decodes LengthOK AllReleased NotStuck
CHECK_DEADLOCK FALSE
