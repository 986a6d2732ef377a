INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS OffOutside CursorBack OriginalTitle Balanced
PROPERTIES OnAtFirst StaysOn GivenUp
CHECK_DEADLOCK FALSE
