INIT Init
NEXT Next
VIEW View
INVARIANTS Fits Complete Live OnDisk
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
