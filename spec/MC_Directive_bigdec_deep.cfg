CONSTANTS
  Domain = "bigdec"
  Deep = TRUE
SPECIFICATION Spec
INVARIANTS Laws_ ScaleFree ShortestHolds Emitted
CHECK_DEADLOCK FALSE
