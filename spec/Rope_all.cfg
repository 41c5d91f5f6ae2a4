CONSTANTS
  Depth = 2
  Many = FALSE
  Random = FALSE
SPECIFICATION Spec
INVARIANTS Lengths UpperIdempotent Emitted
PROPERTY Immutable
CHECK_DEADLOCK FALSE
