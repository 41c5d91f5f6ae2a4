CONSTANTS
  Long = TRUE
  Depth = 8
  Random = TRUE
  MaxLists = 3
SPECIFICATION Spec
INVARIANTS OnePerPut Ordered Emitted

CHECK_DEADLOCK FALSE
