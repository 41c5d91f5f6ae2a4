CONSTANTS
  Machine = "own"
  Readers = 3
  Depth = 16
  Random = TRUE
SPECIFICATION Spec
INVARIANTS Whole OwnError Emitted
CHECK_DEADLOCK FALSE
