CONSTANTS
  Depth = 3
  Random = FALSE
  Memo = "none"
SPECIFICATION Spec
INVARIANTS Own Emitted
CHECK_DEADLOCK FALSE
