INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS ParserIsTerminal LineIsFold PrintsBack
CHECK_DEADLOCK FALSE
