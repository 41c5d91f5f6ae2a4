CONSTANTS
  Items = 10
  MaxItems = 2
  MaxArgs = 5
  Vals = 5
SPECIFICATION Spec
INVARIANTS InOrder Enough Missing FailPrefix Surplus Emitted
PROPERTY Grows
CHECK_DEADLOCK FALSE
