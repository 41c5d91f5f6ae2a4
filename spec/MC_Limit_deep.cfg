CONSTANTS
  Deep = TRUE
SPECIFICATION Spec
INVARIANTS Decided Emitted
CHECK_DEADLOCK FALSE
