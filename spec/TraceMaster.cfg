SPECIFICATION TSpec
CONSTANT defaultInitValue = 0
CONSTANT Starts <- TStarts
CONSTANT Obs0 <- TObs0
CONSTANT Sees <- TSees
CONSTANT Observe <- TObserve
CONSTANT Now <- TNow
CONSTANT React <- TReact
INVARIANT Accepted
INVARIANT Where
CHECK_DEADLOCK FALSE
VIEW View
