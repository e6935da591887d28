SPECIFICATION Spec
INVARIANTS Causality Passive RootBranch Superposition TanguyLimit Stays
CHECK_DEADLOCK FALSE
