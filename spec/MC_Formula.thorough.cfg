SPECIFICATION Spec
CONSTANTS
  MaxSteps = 6
  Leaves = {"2", "x", "r"}
  Funs = {"sqrt"}
  Bins = {"-", "*", "/", "**"}
  Damage = FALSE
INVARIANTS RoundTrip Stable Shape Laws Sums
CHECK_DEADLOCK FALSE
