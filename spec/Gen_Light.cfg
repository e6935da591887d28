SPECIFICATION GenSpec
CONSTANTS
  MaxSteps = 9
  Free = 12
INVARIANTS Emit
CHECK_DEADLOCK FALSE
