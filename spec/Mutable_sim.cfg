CONSTANTS
  Objects = 3
  Depth = 12
  Random = TRUE
  Memo = FALSE
SPECIFICATION Spec
INVARIANTS Current Emitted
PROPERTY Untouched
CHECK_DEADLOCK FALSE
