CONSTANTS
  Long = FALSE
  Depth = 4
  Random = FALSE
  MaxLists = 1
SPECIFICATION Spec
INVARIANTS OnePerPut Ordered Emitted
PROPERTY Grow
CHECK_DEADLOCK FALSE
