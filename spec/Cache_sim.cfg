CONSTANTS
  Threads = {1, 2, 3}
  MaxSteps = 70
  MaxDepth = 4
  Fault = "none"
  Random = TRUE
  Parked = TRUE
  Fs = {1}
  Rich = TRUE
SPECIFICATION Spec
INVARIANTS Pure Own Exclusive NotOffered Emitted
CHECK_DEADLOCK FALSE
