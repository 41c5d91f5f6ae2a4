CONSTANTS
  Alphabet = {37, 45, 35, 43, 32, 48, 57, 120, 46}
  MaxLen = 6
  One = TRUE
SPECIFICATION Spec
INVARIANTS Verdict Covered Emitted
CHECK_DEADLOCK FALSE
