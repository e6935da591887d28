SPECIFICATION Spec
CONSTANTS MaxSteps = 3 MaxObjs = 2 Small = TRUE Classes = {"DrudeEnergy", "Polynomial", "Table"}
INVARIANTS Complete Meaning
CHECK_DEADLOCK FALSE
