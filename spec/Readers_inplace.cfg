CONSTANTS
  Machine = "inplace"
  Readers = 2
  Depth = 3
  Random = FALSE
SPECIFICATION Spec
INVARIANTS Whole
CHECK_DEADLOCK FALSE
