CONSTANTS
  Domain = "layout"
  Deep = FALSE
SPECIFICATION Spec
INVARIANTS Laws_ ScaleFree ShortestHolds Emitted
CHECK_DEADLOCK FALSE
