SPECIFICATION Spec
CONSTANT MaxSteps = 5
VIEW View
INVARIANTS AlwaysValid RefusedChangesNothing Index TotalThickness RepThickness EvenTurn Flat
CHECK_DEADLOCK FALSE
