SPECIFICATION Spec
CONSTANT From = 0
CONSTANT To = 2932895
CONSTANT Stride = 5000
INVARIANT Begins
INVARIANT Follows
INVARIANT Clock
CHECK_DEADLOCK FALSE
