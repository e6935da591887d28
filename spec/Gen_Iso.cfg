SPECIFICATION Spec
CONSTANT MaxLayers = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
