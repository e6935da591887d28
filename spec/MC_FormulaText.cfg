SPECIFICATION Spec
CONSTANTS
  MaxSteps = 5
  Leaves = {"2", "r"}
  Funs = {"sqrt"}
  Bins = {"-", "/", "**"}
  Damage = TRUE
INVARIANTS RoundTrip Stable Shape Laws Sums
CHECK_DEADLOCK FALSE
