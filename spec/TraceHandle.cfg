SPECIFICATION Spec
INVARIANT Sane
INVARIANT Accepted
INVARIANT Where
CHECK_DEADLOCK FALSE
