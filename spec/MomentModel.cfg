SPECIFICATION Spec
CONSTANT From = 0
CONSTANT To = 60000
CONSTANT Stride = 500
INVARIANT Begins
INVARIANT Follows
INVARIANT Clock
CHECK_DEADLOCK FALSE
