SPECIFICATION Spec
CONSTANTS
  MaxSteps = 5
  Free = 0
INVARIANTS InOrder Single Orderless Doubled Update Between
VIEW View
CHECK_DEADLOCK FALSE
