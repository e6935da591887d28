SPECIFICATION Spec
CONSTANTS
  MaxSteps = 4
  Free = 0
INVARIANTS BothAgree Normed LastSet Snapshots PhaseFree Diluted Pass
VIEW View
CHECK_DEADLOCK FALSE
