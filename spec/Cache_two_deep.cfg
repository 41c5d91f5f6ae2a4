CONSTANTS
  Threads = {1, 2}
  MaxSteps = 10
  MaxDepth = 2
  Fault = "none"
  Random = FALSE
  Parked = TRUE
  Fs = {1}
  Rich = FALSE
SPECIFICATION Spec
INVARIANTS Pure Own Exclusive NotOffered Emitted
CHECK_DEADLOCK FALSE
