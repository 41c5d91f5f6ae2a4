CONSTANTS
  MaxItems = 3
  Items = 8
  Rooms = {0, 1, 2, 3, 5, 8, 9, 11, 16, 300, 100000}
SPECIFICATION Spec
INVARIANTS NoMore Prefix IOExactly SameEnd Emitted
CHECK_DEADLOCK FALSE
