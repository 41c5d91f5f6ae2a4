CONSTANTS
  Years = {1, 99, 999, 1582, 1899, 1900, 1969, 1970, 2000, 2023, 2024, 2100, 9999}
  Deep = FALSE
SPECIFICATION Spec
INVARIANTS Calendar SameMoment Emitted
CHECK_DEADLOCK FALSE
