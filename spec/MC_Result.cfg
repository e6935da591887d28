SPECIFICATION Spec
CONSTANT MaxSteps = 2
VIEW View
INVARIANTS RangeLegal AmplitudesStay DeltaLaws RhoIsPsiDelta CircularPower MuellerPure MuellerProduct MuellerDepol NamesFunctional
CHECK_DEADLOCK FALSE
