SPECIFICATION Spec
CONSTANTS
  Values = {"1.0001", "400", "-4|7", "100|80", "-1|0.001", "-2", "-0.5", "1", "2", "9/4", "12", "-3", "-20", "0", "2|1", "-3|0.1", "-15|2", "5|3", "0|1", "1|1e-7", "2|-1", "-3|-0.2", "-6|1e-7"}
  Steps = 60
INVARIANTS Ends Same Quadratic OneRoot Mirror PassiveMix Wiener Exchange
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
