SPECIFICATION Spec
CONSTANT defaultInitValue = 0
CONSTANT Starts <- EStarts
CONSTANT Obs0 <- EObs0
CONSTANT Sees <- ESees
CONSTANT Observe <- EObserve
CONSTANT React <- EReact
CONSTANT Units = 2
CONSTANT Emits = TRUE
CHECK_DEADLOCK FALSE
INVARIANT RecvRight
INVARIANT PurgeRight
INVARIANT Case
