CONSTANTS
  Alphabet = {37, 45, 48, 53, 46, 42, 100, 122}
  MaxLen = 6
  One = FALSE
SPECIFICATION Spec
INVARIANTS Verdict Covered Emitted
CHECK_DEADLOCK FALSE
