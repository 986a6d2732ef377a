INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS SplitJoins SlicesConcat
PROPERTIES NeverAltered
CHECK_DEADLOCK FALSE
