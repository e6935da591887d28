SPECIFICATION Spec
CONSTANT MaxRows = 6
INVARIANTS Nodes Domain Broken Between
CHECK_DEADLOCK FALSE
