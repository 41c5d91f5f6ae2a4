CONSTANTS
  Threads = {1, 2}
  MaxSteps = 10
  MaxDepth = 1
  Fault = "shared"
  Random = FALSE
  Parked = TRUE
  Fs = {1}
  Rich = FALSE
SPECIFICATION Spec
INVARIANTS Pure
CHECK_DEADLOCK FALSE
