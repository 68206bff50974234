SPECIFICATION Spec
CONSTANT defaultInitValue = 0
CONSTANT Starts <- MStarts
CONSTANT Obs0 <- MObs0
CONSTANT Sees <- MSees
CONSTANT Observe <- MObserve
CONSTANT React <- MReact
CONSTANT Emits = TRUE
CONSTANT Scenario = "set"
INVARIANT Ends
INVARIANT SetRight
INVARIANT Case
CHECK_DEADLOCK FALSE
