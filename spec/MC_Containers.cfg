SPECIFICATION Spec
CONSTANT MaxSteps = 3
VIEW View
INVARIANTS AlwaysValid RefusedChangesNothing Index TotalThickness RepThickness EvenTurn Flat
CHECK_DEADLOCK FALSE
