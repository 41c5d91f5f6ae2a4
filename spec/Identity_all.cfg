CONSTANTS
  Objects = 2
  Lists = 1
  Depth = 3
  Random = FALSE
  Fault = "none"
SPECIFICATION Spec
INVARIANTS Same Refuses Prefix Emitted
CHECK_DEADLOCK FALSE
