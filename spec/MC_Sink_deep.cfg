CONSTANTS
  MaxItems = 4
  Items = 8
  Rooms = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 14, 16, 20, 300, 100000}
SPECIFICATION Spec
INVARIANTS NoMore Prefix IOExactly SameEnd Emitted
CHECK_DEADLOCK FALSE
