INIT Init
NEXT Next
INVARIANTS Alone Progress
CHECK_DEADLOCK FALSE
