CONSTANTS
  Deep = TRUE
SPECIFICATION Spec
INVARIANTS Matrix Emitted
CHECK_DEADLOCK FALSE
