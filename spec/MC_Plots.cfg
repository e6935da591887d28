SPECIFICATION Spec
CONSTANT MaxSlices = 2
INVARIANTS Outside Inside Thin Moves Trace_ Panels
CHECK_DEADLOCK FALSE
