SPECIFICATION GenMatSpec
CONSTANTS
  MaxSteps = 9
  Entries = {"entry", "m2"}
  Samples = {"sample"}
  Insts = {"instrument"}
  Units_ = {"nm"}
  Sizes = {1}
  CompNames = {"a", "b", "Z"}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
