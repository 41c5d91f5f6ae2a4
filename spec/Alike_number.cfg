CONSTANTS
  Depth = 3
  Random = FALSE
  Memo = "number"
SPECIFICATION Spec
INVARIANTS Own
CHECK_DEADLOCK FALSE
