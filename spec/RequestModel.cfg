SPECIFICATION Spec
CONSTANT defaultInitValue = 0
CONSTANT Starts <- QStarts
CONSTANT Obs0 <- QObs0
CONSTANT Sees <- QSees
CONSTANT Observe <- QObserve
CONSTANT React <- QReact
CHECK_DEADLOCK FALSE
INVARIANT RequestRight
