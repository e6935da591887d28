SPECIFICATION Spec
CONSTANTS MaxSteps = 4 MaxObjs = 2 Small = TRUE Classes = {"DrudeEnergy", "Polynomial"}
INVARIANTS Complete Meaning
CHECK_DEADLOCK FALSE
