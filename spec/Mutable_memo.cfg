CONSTANTS
  Objects = 1
  Depth = 3
  Random = FALSE
  Memo = TRUE
SPECIFICATION Spec
INVARIANTS Current
CHECK_DEADLOCK FALSE
