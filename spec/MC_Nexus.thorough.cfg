SPECIFICATION Spec
CONSTANTS
  MaxSteps = 4
  Entries = {"entry"}
  Samples = {"sample", "film"}
  Insts = {"instrument", "ell"}
  Units_ = {"angstrom", "nm"}
  Sizes = {1, 2}
  CompNames = {"a"}
INVARIANTS ReadBack Foreign Every NmKnown
VIEW View
CHECK_DEADLOCK FALSE
