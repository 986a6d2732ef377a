INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Conserved TableOk ReportsOk
CHECK_DEADLOCK FALSE
