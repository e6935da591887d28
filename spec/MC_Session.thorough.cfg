SPECIFICATION Spec
CONSTANTS
  MaxSteps = 6
  Values = {1, 2}
  Limit = 2
  Tracks = {TRUE, FALSE}
INVARIANTS Shown Drawn Trail RedoOnlyAfterUndo InBounds
PROPERTIES UndoRedo
VIEW View
CHECK_DEADLOCK FALSE
