INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Exported Telling Missing
CHECK_DEADLOCK FALSE
