SPECIFICATION Spec
CONSTANT Held = {0, 1, 2}
CONSTANT Depth = 5
CONSTANT Emits = TRUE
INVARIANT ShowsItsSource
INVARIANT Apart
INVARIANT NothingKept
INVARIANT Case
PROPERTY Untouched
CHECK_DEADLOCK FALSE
