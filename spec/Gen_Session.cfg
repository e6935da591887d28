SPECIFICATION GenSpec
CONSTANTS
  MaxSteps = 14
  Values = {1, 2, 3, 4}
  Limit = 50
  Tracks = {TRUE, FALSE}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
