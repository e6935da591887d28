SPECIFICATION GenSpec
CONSTANTS
  MaxSteps = 11
  Free = 12
INVARIANTS Emit
CHECK_DEADLOCK FALSE
