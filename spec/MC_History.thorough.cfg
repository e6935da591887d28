SPECIFICATION Spec
CONSTANTS
  MaxSteps = 5
  Values = {1, 2}
  Maxima = {1, 2}
  NameSet = {"a", "b"}
INVARIANTS Bounded Ordered UniqueNames Undoes Legal
PROPERTIES Immutable SnapshotIsState
VIEW View
CHECK_DEADLOCK FALSE
