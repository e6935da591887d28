SPECIFICATION Spec
CONSTANTS
  MaxSteps = 5
  Values = {1, 2}
INVARIANTS Kept Forked Reversible
PROPERTIES Snapshots Pure Local
VIEW View
CHECK_DEADLOCK FALSE
