INIT Init
NEXT Next
CONSTANT Entries = {"-1", "3"}
INVARIANTS Native ExpLaws SignLaw
CHECK_DEADLOCK FALSE
