SPECIFICATION Spec
CONSTANT MaxRows = 4
INVARIANTS Emit
CHECK_DEADLOCK FALSE
