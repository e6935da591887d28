SPECIFICATION GenSpec
CONSTANTS MaxSteps = 7 Ops = {}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
