INIT Init
NEXT Next
INVARIANT Laws
INVARIANT Table
CHECK_DEADLOCK FALSE
