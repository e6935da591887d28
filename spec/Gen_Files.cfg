SPECIFICATION GenSpec
CONSTANTS
  MaxLines = 16
  MaxHead = 4
  Xs = {1, 2, 3, 4, 5, 6}
  Aois = {1, 2, 3}
  Units_ = {"nm", "Angstroms", "eV", "um", "1/cm", "kg", "qqx"}
  Fmts = {"wvase", "cease", "spectraray", "accurion", "mmatrix"}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
