SPECIFICATION Spec
INVARIANT EndReport
CHECK_DEADLOCK FALSE
