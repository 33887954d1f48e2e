INIT Init
NEXT Step
VIEW View
INVARIANTS Apart DuePrefix NextHead
PROPERTY Frame
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
