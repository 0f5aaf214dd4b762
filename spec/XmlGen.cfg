INIT Init
NEXT Next
VIEW View
CONSTRAINT Small
CHECK_DEADLOCK FALSE
