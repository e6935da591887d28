SPECIFICATION Spec
CONSTANTS Lengths = {2, 3, 4, 5, 6, 7, 8} MaxSteps = 4 Amounts = {1, 3}
INVARIANTS Linear Response Transposed Axis Turned
VIEW View
CHECK_DEADLOCK FALSE
