SPECIFICATION Spec
CONSTANTS
  MaxSteps = 6
  Ids = {"a", "b"}
  Heads = {"h"}
  Authors_ = {"a", "X"}
  Ranges <- MCRanges
INVARIANTS EveryPage Searches Unions Lookups
PROPERTIES Grows
VIEW View
CHECK_DEADLOCK FALSE
