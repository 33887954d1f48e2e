INIT Init
NEXT Next
INVARIANTS One Bounded True_ Kept Sums
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
