CONSTANTS Depth = 4
SPECIFICATION Spec
INVARIANTS Original OnlyAsked OnePerNew Emitted
PROPERTY Stable
CHECK_DEADLOCK FALSE
