INIT Init
NEXT Next
INVARIANTS Bounded Shown Said
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
