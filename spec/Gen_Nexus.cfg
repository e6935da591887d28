SPECIFICATION GenSpec
CONSTANTS
  MaxSteps = 10
  Entries = {"entry", "e2"}
  Samples = {"sample", "film"}
  Insts = {"instrument", "ell"}
  Units_ = {"angstrom", "Angstroms", "nm", "um", "eV", "", "NOT_PROVIDED", "1/cm"}
  Sizes = {1, 2, 3, 5}
  CompNames = {"a"}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
