INIT Init
NEXT Next
CONSTRAINT Deep
INVARIANT LastWins
VIEW View
CHECK_DEADLOCK FALSE
