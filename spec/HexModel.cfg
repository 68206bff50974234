CONSTANT N = 5
INIT Init
NEXT Next
INVARIANTS Emit Fits Grows Ignores SpelledBack
CHECK_DEADLOCK FALSE
