INIT Init
NEXT Next
CONSTRAINT Small
VIEW View
INVARIANT Inv
CHECK_DEADLOCK FALSE
