SPECIFICATION Spec
CONSTANT defaultInitValue = 0
CONSTANT Starts <- LStarts
CONSTANT Obs0 <- LObs0
CONSTANT Sees <- LSees
CONSTANT Observe <- LObserve
CONSTANT React <- LReact
CONSTANT Telegrams = {1, 2, 3, 4, 5}
CONSTANT Retries = {0, 1, 2, 3}
CONSTANT Emits = FALSE
INVARIANT Complete
INVARIANT GivesUp
INVARIANT OnlyRequests
INVARIANT Effort
INVARIANT Case
CHECK_DEADLOCK FALSE
VIEW View
