SPECIFICATION Spec
CONSTANT Events = 3
CONSTANT History = FALSE
CONSTANT Bases = "large"
INVARIANT RightOutcome
INVARIANT RightPlace
INVARIANT Exact
INVARIANT BigStep
CHECK_DEADLOCK FALSE
