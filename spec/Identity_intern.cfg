CONSTANTS
  Objects = 2
  Lists = 1
  Depth = 3
  Random = FALSE
  Fault = "intern"
SPECIFICATION Spec
INVARIANTS Same
CHECK_DEADLOCK FALSE
