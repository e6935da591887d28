SPECIFICATION Spec
CONSTANTS W = {1, 2, 3}
 MaxLen = 3
 MaxCalls = 2
INVARIANTS Pointwise SameLength Independent
CHECK_DEADLOCK FALSE
