CONSTANTS
  Threads = {1, 2}
  MaxSteps = 8
  MaxDepth = 2
  Fault = "inuse"
  Random = FALSE
  Parked = TRUE
  Fs = {1}
  Rich = FALSE
SPECIFICATION Spec
INVARIANTS Pure
CHECK_DEADLOCK FALSE
