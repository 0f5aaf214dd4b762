INIT Init
NEXT Next
CONSTRAINT Small
VIEW View
CHECK_DEADLOCK FALSE
