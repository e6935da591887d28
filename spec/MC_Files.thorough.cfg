SPECIFICATION Spec
CONSTANTS
  MaxLines = 6
  MaxHead = 2
  Xs = {2, 5}
  Aois = {1, 3}
  Units_ = {"nm", "Angstroms", "eV", "um", "1/cm", "kg", "qqx"}
  Fmts = {"wvase", "cease", "spectraray", "accurion", "mmatrix"}
INVARIANTS Complete Faithful Angles Blind Unordered OnlyFiles
CHECK_DEADLOCK FALSE
