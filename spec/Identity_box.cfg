CONSTANTS
  Objects = 2
  Lists = 1
  Depth = 3
  Random = FALSE
  Fault = "box"
SPECIFICATION Spec
INVARIANTS Refuses
CHECK_DEADLOCK FALSE
