CONSTANTS
  Depth = 3
  Random = FALSE
  Memo = "hash"
SPECIFICATION Spec
INVARIANTS Own
CHECK_DEADLOCK FALSE
