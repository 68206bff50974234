SPECIFICATION Spec
CONSTANT Depth = 4
CONSTANT Focus = "all"
CONSTANT Places <- OnePlace
CONSTANT Emits = TRUE
CONSTANT Twice = TRUE
CONSTANT Transports = {"tcp", "ser"}
INVARIANT ClosedOnce
INVARIANT ClosesItsOwn
INVARIANT OneDescriptor
INVARIANT DisconnectRight
INVARIANT LineRight
INVARIANT Transmits
INVARIANT GoesThere
INVARIANT Case
CHECK_DEADLOCK FALSE
