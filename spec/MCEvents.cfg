INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Agrees OncePerRegistration NobodyAfter
PROPERTIES Apart
CHECK_DEADLOCK FALSE
