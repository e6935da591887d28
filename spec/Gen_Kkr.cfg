SPECIFICATION Spec
CONSTANTS Lengths = {2, 3, 4, 5, 6, 7, 8, 9} MaxSteps = 3 Amounts = {1, 3}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
