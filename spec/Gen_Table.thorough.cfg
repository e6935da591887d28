SPECIFICATION Spec
CONSTANT MaxRows = 5
INVARIANTS Emit
CHECK_DEADLOCK FALSE
