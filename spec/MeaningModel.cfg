INIT Init
NEXT Next
INVARIANTS Agrees Unknown
CHECK_DEADLOCK FALSE
