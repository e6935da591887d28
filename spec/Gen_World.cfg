SPECIFICATION GenSpec
CONSTANTS
  MaxSteps = 14
  Values = {1}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
