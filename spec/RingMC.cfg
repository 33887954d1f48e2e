INIT Init
NEXT Next
INVARIANTS Bounded Ordered Newest Prefix Parts
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
