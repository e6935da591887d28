SPECIFICATION Spec
CONSTANT MaxSteps = 12
INVARIANTS Emit
CHECK_DEADLOCK FALSE
