INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Total AlwaysOne Priority Apart
PROPERTIES Unforced
CHECK_DEADLOCK FALSE
