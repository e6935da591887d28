SPECIFICATION GenSpec
CONSTANTS
  MaxSteps = 16
  Values = {1, 2, 3}
  Maxima = {1}
  NameSet = {"a", "b"}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
