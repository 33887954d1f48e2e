INIT Init
NEXT Next_
VIEW View
CONSTANT ZoneTable <- Zones
INVARIANT Exhaustive
PROPERTY Forward
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
