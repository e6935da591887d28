SPECIFICATION Spec
CONSTANTS
  MaxSteps = 12
  Free = 0
INVARIANTS SameBeam UnitsAgree
VIEW View
CHECK_DEADLOCK FALSE
