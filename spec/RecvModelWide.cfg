SPECIFICATION Spec
CONSTANT Events = 2
CONSTANT History = FALSE
CONSTANT Bases = "small"
INVARIANT RightOutcome
INVARIANT RightPlace
INVARIANT Exact
INVARIANT BigStep
PROPERTY Terminates
CHECK_DEADLOCK FALSE
