CONSTANTS
  Alphabet = {54, 53, 51, 46, 110}
  MaxLen = 8
  One = TRUE
SPECIFICATION Spec
INVARIANTS Verdict Covered Emitted
CHECK_DEADLOCK FALSE
