SPECIFICATION Spec
CONSTANT Handles = {1, 2}
CONSTANT Depth = 3
CONSTANT Emits = TRUE
CONSTANT Pairs <- AllPairs
INVARIANT Alone
INVARIANT Repeats
INVARIANT Timeouts
INVARIANT Connected
INVARIANT Case
CHECK_DEADLOCK FALSE
