SPECIFICATION SSpec
CONSTANT defaultInitValue = 0
CONSTANT Starts <- MStarts
CONSTANT Obs0 <- MObs0
CONSTANT Sees <- MSees
CONSTANT Observe <- MObserve
CONSTANT React <- MReact
CONSTANT Emits = FALSE
CONSTANT Scenario = "read"
INVARIANT Ends
CHECK_DEADLOCK FALSE
INVARIANT Means
INVARIANT Silent
