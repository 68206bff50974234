SPECIFICATION Spec
INVARIANTS OneCallEach Lacking Case
