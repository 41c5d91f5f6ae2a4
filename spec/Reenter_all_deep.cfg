CONSTANTS
  MaxCalls = 4
  MaxDepth = 4
  Places = {1, 4, 16, 17, 21, 30, 40}
  Shared = FALSE
SPECIFICATION Spec
INVARIANTS Own Emitted
CHECK_DEADLOCK FALSE
