SPECIFICATION PSpec
INVARIANT EndReport
CHECK_DEADLOCK FALSE
