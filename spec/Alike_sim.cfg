CONSTANTS
  Depth = 14
  Random = TRUE
  Memo = "none"
SPECIFICATION Spec
INVARIANTS Own Emitted
CHECK_DEADLOCK FALSE
