CONSTANTS
  Domain = "hex"
  Deep = FALSE
SPECIFICATION Spec
INVARIANTS Laws_ ScaleFree ShortestHolds Emitted
CHECK_DEADLOCK FALSE
