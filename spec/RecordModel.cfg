CONSTANT N = 4
INIT Init
NEXT Next
INVARIANTS Emit Tiles Again Splits Rest Sized
CHECK_DEADLOCK FALSE
