CONSTANTS
  Items = 6
  MaxItems = 3
  MaxArgs = 5
  Vals = 3
SPECIFICATION Spec
INVARIANTS InOrder Enough Missing FailPrefix Surplus Emitted
PROPERTY Grows
CHECK_DEADLOCK FALSE
