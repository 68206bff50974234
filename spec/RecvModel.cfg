SPECIFICATION Spec
CONSTANT Events = 1
CONSTANT History = TRUE
CONSTANT Bases = "small"
INVARIANT RightOutcome
INVARIANT RightPlace
INVARIANT Exact
INVARIANT BigStep
INVARIANT Case
CHECK_DEADLOCK FALSE
