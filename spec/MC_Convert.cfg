SPECIFICATION Spec
CONSTANTS
  MaxSteps = 6
  Free = 0
INVARIANTS SameBeam UnitsAgree
VIEW View
CHECK_DEADLOCK FALSE
