SPECIFICATION Fair
ACTION_CONSTRAINT Emit
INVARIANTS AsSpecified NoTimerOutside NeverLate
PROPERTIES Ends
CHECK_DEADLOCK FALSE
