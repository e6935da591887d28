SPECIFICATION Spec
CONSTANT MaxRows = 4
INVARIANTS Nodes Domain Broken Between
CHECK_DEADLOCK FALSE
