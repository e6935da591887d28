SPECIFICATION Spec
CONSTANTS
  MaxSteps = 4
  Values = {1, 2}
  Maxima = {1, 2}
  NameSet = {"a"}
INVARIANTS Bounded Ordered UniqueNames Undoes Legal
PROPERTIES Immutable SnapshotIsState
VIEW View
CHECK_DEADLOCK FALSE
