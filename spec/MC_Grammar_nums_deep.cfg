CONSTANTS
  Alphabet = {54, 53, 51, 48, 46, 110}
  MaxLen = 9
  One = TRUE
SPECIFICATION Spec
INVARIANTS Verdict Covered Emitted
CHECK_DEADLOCK FALSE
