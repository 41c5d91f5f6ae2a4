CONSTANTS
  Deep = FALSE
SPECIFICATION Spec
INVARIANTS Matrix Emitted
CHECK_DEADLOCK FALSE
