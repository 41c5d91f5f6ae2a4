CONSTANTS
  Objects = 1
  Depth = 3
  Random = FALSE
  Memo = FALSE
SPECIFICATION Spec
INVARIANTS Current Emitted
PROPERTY Untouched
CHECK_DEADLOCK FALSE
