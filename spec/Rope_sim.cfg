CONSTANTS
  Depth = 14
  Many = TRUE
  Random = TRUE
SPECIFICATION Spec
INVARIANTS Lengths Emitted

CHECK_DEADLOCK FALSE
