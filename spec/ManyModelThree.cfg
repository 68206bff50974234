SPECIFICATION Spec
CONSTANT Handles = {1, 2, 3}
CONSTANT Depth = 3
CONSTANT Emits = FALSE
CONSTANT Pairs <- Three
INVARIANT Alone
INVARIANT Repeats
INVARIANT Timeouts
INVARIANT Connected
INVARIANT Case
CHECK_DEADLOCK FALSE
