SPECIFICATION Spec
CONSTANT Held = {0, 1, 2, 3}
CONSTANT Depth = 7
CONSTANT Emits = FALSE
INVARIANT ShowsItsSource
INVARIANT Apart
INVARIANT NothingKept
INVARIANT Case
PROPERTY Untouched
CHECK_DEADLOCK FALSE
