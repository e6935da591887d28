SPECIFICATION Spec
CONSTANTS
  MaxSteps = 5
  Ids = {"a", "b"}
  Heads = {"h"}
  Authors_ = {"a", "X"}
  Ranges <- MCRanges
INVARIANTS EveryPage Searches Unions Lookups
PROPERTIES Grows
VIEW View
CHECK_DEADLOCK FALSE
