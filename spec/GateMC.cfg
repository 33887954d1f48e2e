INIT Init
NEXT Next
INVARIANTS Closed Same
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
