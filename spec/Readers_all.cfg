CONSTANTS
  Machine = "own"
  Readers = 2
  Depth = 4
  Random = FALSE
SPECIFICATION Spec
INVARIANTS Whole OwnError Emitted
CHECK_DEADLOCK FALSE
