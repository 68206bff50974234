SPECIFICATION Spec
CONSTANT defaultInitValue = 0
CONSTANT Starts <- SStarts
CONSTANT Obs0 <- SObs0
CONSTANT Sees <- SSees
CONSTANT Observe <- SObserve
CONSTANT React <- SReact
CONSTANT Size = 3
CONSTANT Chaos = TRUE
CONSTANT Emits = FALSE
INVARIANT FoundOnce
INVARIANT FoundOnly
INVARIANT FoundAll
INVARIANT Aborts
INVARIANT MasksRefine
INVARIANT ProgressOnce
INVARIANT ProgressBefore
INVARIANT Case
CHECK_DEADLOCK FALSE
