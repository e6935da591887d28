SPECIFICATION Spec
CONSTANTS
  MaxSteps = 3
  Kinds = {"iso", "uni", "bi"}
  Disps = {"d1", "d3", "d4"}
  Rots = {"e2", "v1", "vt1"}
  Fractions = {"0", "1/3", "1", "1.5"}
  Rich = FALSE
VIEW View
INVARIANTS Eigen Symmetric Rotations Isotropic WellMade Ends
CHECK_DEADLOCK FALSE
