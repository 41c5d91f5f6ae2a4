CONSTANTS
  Alphabet = {37, 100, 105, 117, 111, 120, 88, 102, 70, 101, 69, 103, 71, 97, 65, 99, 115, 83, 112, 110, 116, 84, 53, 46, 42, 104, 108, 76, 113, 98, 123, 36, 45, 48}
  MaxLen = 5
  One = TRUE
SPECIFICATION Spec
INVARIANTS Verdict Covered Emitted
CHECK_DEADLOCK FALSE
