SPECIFICATION Spec
CONSTANTS MaxSteps = 2 Ops = {"sum", "index"}
INVARIANTS Counted OneFamily Algebra
PROPERTY OperandsKept
CHECK_DEADLOCK FALSE
