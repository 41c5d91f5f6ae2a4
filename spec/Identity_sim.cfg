CONSTANTS
  Objects = 4
  Lists = 2
  Depth = 12
  Random = TRUE
  Fault = "none"
SPECIFICATION Spec
INVARIANTS Same Refuses Prefix Emitted
CHECK_DEADLOCK FALSE
