CONSTANTS
  Threads = {1}
  MaxSteps = 7
  MaxDepth = 3
  Fault = "none"
  Random = FALSE
  Parked = TRUE
  Fs = {1, 2}
  Rich = TRUE
SPECIFICATION Spec
INVARIANTS Pure Own Exclusive NotOffered Emitted
CHECK_DEADLOCK FALSE
