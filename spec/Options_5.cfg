CONSTANTS Depth = 5
SPECIFICATION Spec
INVARIANTS Original OnlyAsked OnePerNew Emitted
PROPERTY Stable
CHECK_DEADLOCK FALSE
