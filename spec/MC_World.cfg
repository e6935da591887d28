SPECIFICATION Spec
CONSTANTS
  MaxSteps = 4
  Values = {1, 2}
INVARIANTS Kept Forked Reversible
PROPERTIES Snapshots Pure Local
VIEW View
CHECK_DEADLOCK FALSE
