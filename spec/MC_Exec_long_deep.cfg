CONSTANTS
  Items = 7
  MaxItems = 3
  MaxArgs = 6
  Vals = 3
SPECIFICATION Spec
INVARIANTS InOrder Enough Missing FailPrefix Surplus Emitted
PROPERTY Grows
CHECK_DEADLOCK FALSE
