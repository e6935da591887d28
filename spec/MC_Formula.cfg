SPECIFICATION Spec
CONSTANTS
  MaxSteps = 5
  Leaves = {"2", "x", "r"}
  Funs = {"sqrt"}
  Bins = {"-", "/", "**"}
  Damage = FALSE
INVARIANTS RoundTrip Stable Shape Laws Sums
CHECK_DEADLOCK FALSE
