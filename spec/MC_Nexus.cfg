SPECIFICATION Spec
CONSTANTS
  MaxSteps = 3
  Entries = {"entry", "e2"}
  Samples = {"sample", "film"}
  Insts = {"instrument"}
  Units_ = {"angstrom", "nm"}
  Sizes = {1, 2}
  CompNames = {"a"}
INVARIANTS ReadBack Foreign Every NmKnown
VIEW View
CHECK_DEADLOCK FALSE
