CONSTANTS
    A = 2
    N = 7
    NP = 4
SPECIFICATION Spec
INVARIANTS CertExact CertNoForgery TypesExact StarsExact TransformExact DecodeExact SubOrder
CHECK_DEADLOCK FALSE
