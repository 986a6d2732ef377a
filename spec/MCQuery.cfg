INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS AskedOnce FallbackWithoutTty
PROPERTIES Remembered
CHECK_DEADLOCK FALSE
