INIT Init
NEXT Next
VIEW View
INVARIANTS Once NoLoss One
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
