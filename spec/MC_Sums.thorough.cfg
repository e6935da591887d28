SPECIFICATION Spec
CONSTANTS MaxSteps = 3 Ops = {"index"}
INVARIANTS Counted OneFamily Algebra
PROPERTY OperandsKept
CHECK_DEADLOCK FALSE
