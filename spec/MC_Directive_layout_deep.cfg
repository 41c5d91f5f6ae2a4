CONSTANTS
  Domain = "layout"
  Deep = TRUE
SPECIFICATION Spec
INVARIANTS Laws_ ScaleFree ShortestHolds Emitted
CHECK_DEADLOCK FALSE
