SPECIFICATION Spec
CONSTANT Emit = TRUE
INVARIANT PrintCase
INVARIANT PrefixFree
INVARIANT RoundTrip
INVARIANT AckOnly
INVARIANT BadIsFinal
PROPERTY CountDown
PROPERTY NeverEarly
CHECK_DEADLOCK FALSE
