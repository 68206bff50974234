SPECIFICATION SSpec
CONSTANT defaultInitValue = 0
CONSTANT Starts <- MStarts
CONSTANT Obs0 <- MObs0
CONSTANT Sees <- MSees
CONSTANT Observe <- MObserve
CONSTANT React <- MReact
CONSTANT Emits = FALSE
INVARIANT Reports
INVARIANT Returned
CHECK_DEADLOCK FALSE
CONSTANT Scenario = "probe"
INVARIANT Means
INVARIANT Legitimate
INVARIANT Announced
