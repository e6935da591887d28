SPECIFICATION Spec
CONSTANT MaxSlices = 3
INVARIANTS Outside Inside Thin Moves Trace_ Panels
CHECK_DEADLOCK FALSE
