CONSTANTS
  Years = {1, 2, 4, 99, 100, 101, 400, 999, 1000, 1581, 1582, 1583, 1600, 1700, 1899, 1900, 1904, 1968, 1969, 1970, 1971, 1999, 2000, 2001, 2023, 2024, 2025, 2038, 2100, 2400, 9998, 9999}
  Deep = TRUE
SPECIFICATION Spec
INVARIANTS Calendar SameMoment Emitted
CHECK_DEADLOCK FALSE
