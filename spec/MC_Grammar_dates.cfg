CONSTANTS
  Alphabet = {37, 116, 123, 125, 39, 100}
  MaxLen = 6
  One = FALSE
SPECIFICATION Spec
INVARIANTS Verdict Covered Emitted
CHECK_DEADLOCK FALSE
