SPECIFICATION GenSpec
CONSTANTS
  MaxSteps = 16
  Leaves = {"2", "x", "a", "b", "r", "s", "pi", "1j", "0.75", "3", "y", "1e-3", "12.5E1", "c", "h", "hbar", "eps_0", "sumof"}
  Funs = {"sqrt", "sin", "cos", "tan", "ln", "log", "dawsn", "heaviside"}
  Bins = {"+", "-", "*", "/", "**"}
  Damage = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
