CONSTANTS
  MaxCalls = 3
  MaxDepth = 3
  Places = {1, 4, 16, 17, 21, 30}
  Shared = FALSE
SPECIFICATION Spec
INVARIANTS Own Emitted
CHECK_DEADLOCK FALSE
