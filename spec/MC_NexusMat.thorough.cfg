SPECIFICATION MatSpec
CONSTANTS
  MaxSteps = 3
  Entries = {"entry", "m2"}
  Samples = {"sample"}
  Insts = {"instrument"}
  Units_ = {"nm"}
  Sizes = {1}
  CompNames = {"a", "b"}
INVARIANTS Model Readables Unordered Apart
CHECK_DEADLOCK FALSE
