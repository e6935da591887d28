SPECIFICATION Spec
CONSTANTS Lengths = {2, 3, 4, 5} MaxSteps = 3 Amounts = {1, 3}
INVARIANTS Linear Response Transposed Axis Turned
VIEW View
CHECK_DEADLOCK FALSE
