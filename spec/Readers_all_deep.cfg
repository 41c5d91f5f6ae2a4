CONSTANTS
  Machine = "own"
  Readers = 2
  Depth = 5
  Random = FALSE
SPECIFICATION Spec
INVARIANTS Whole OwnError Emitted
CHECK_DEADLOCK FALSE
