INIT Init
NEXT Next_
CHECK_DEADLOCK FALSE
