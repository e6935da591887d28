SPECIFICATION GenSpec
CONSTANTS
  MaxSteps = 8
  Free = 12
INVARIANTS Emit
CHECK_DEADLOCK FALSE
