CONSTANTS
  Domain = "hex"
  Deep = TRUE
SPECIFICATION Spec
INVARIANTS Laws_ ScaleFree ShortestHolds Emitted
CHECK_DEADLOCK FALSE
