INIT Init
NEXT Next
VIEW View
INVARIANTS One Fair Freed
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
