CONSTANTS
  Alphabet = {37, 116, 123, 125, 39, 100, 43}
  MaxLen = 9
  One = TRUE
SPECIFICATION Spec
INVARIANTS Verdict Covered Emitted
CHECK_DEADLOCK FALSE
