CONSTANTS
  Long = FALSE
  Depth = 16
  Random = TRUE
  MaxLists = 3
SPECIFICATION Spec
INVARIANTS OnePerPut Ordered Emitted

CHECK_DEADLOCK FALSE
