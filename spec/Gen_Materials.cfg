SPECIFICATION GenSpec
CONSTANTS
  MaxSteps = 10
  Kinds = {"iso", "uni", "bi"}
  Disps = {"d1", "d2", "d3", "d4"}
  Rots = {"e1"}
  Fractions = {"0", "1/3", "0.77", "0.5", "1", "1.5", "-1/100", "0", "1"}
  Rich = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
