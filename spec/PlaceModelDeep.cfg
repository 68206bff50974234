SPECIFICATION Spec
CONSTANT Depth = 6
CONSTANT Focus = "place"
CONSTANT Places <- FewPlaces
CONSTANT Emits = FALSE
CONSTANT Twice = FALSE
CONSTANT Transports = {"tcp", "ser"}
INVARIANT ClosedOnce
INVARIANT ClosesItsOwn
INVARIANT OneDescriptor
INVARIANT DisconnectRight
INVARIANT LineRight
INVARIANT Transmits
INVARIANT GoesThere
INVARIANT Case
CHECK_DEADLOCK FALSE
