SPECIFICATION GenSpec
CONSTANTS
  MaxSteps = 24
  Ids = {"Au", "Ag", "SiO2", "Johnson", "Malitson", "Palik", "1064"}
  Heads = {"Oxides", "Thin films", "Experimental data"}
  Authors_ = {"Johnson and Christy", "Malitson", "Palik", "Au"}
  Ranges <- MCRanges
INVARIANTS Emit
CHECK_DEADLOCK FALSE
