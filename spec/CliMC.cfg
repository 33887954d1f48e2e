INIT Init
NEXT Next_
INVARIANTS Once Quiet Ahead
PROPERTY Steady
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
