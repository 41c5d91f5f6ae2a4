CONSTANTS
  Deep = FALSE
SPECIFICATION Spec
INVARIANTS Decided Emitted
CHECK_DEADLOCK FALSE
