SPECIFICATION Spec
CONSTANT MaxSteps = 10
INVARIANTS Emit
CHECK_DEADLOCK FALSE
