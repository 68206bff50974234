SPECIFICATION Spec
CONSTANT defaultInitValue = 0
CONSTANT Starts <- MStarts
CONSTANT Obs0 <- MObs0
CONSTANT Sees <- MSees
CONSTANT Observe <- MObserve
CONSTANT Now <- MNow
CONSTANT React <- MReact
CONSTANT Emits = TRUE
INVARIANT SelectRight
INVARIANT ProbeRight
INVARIANT ReadRight
INVARIANT ReadOutRight
INVARIANT Reports
INVARIANT TimesRight
INVARIANT Returned
INVARIANT Case
CHECK_DEADLOCK FALSE
CONSTANT Scenario = "rr"
