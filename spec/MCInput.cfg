SPECIFICATION Spec
CONSTANT MaxIn = 3
INVARIANTS ModeRestored FedInOrder TypedInOrder NothingLost NoEmptyRead
PROPERTIES Ends
CHECK_DEADLOCK FALSE
