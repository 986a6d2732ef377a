INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS ScreenFollows
PROPERTIES FreshAfterRead OnlyOnce ToldIffNew
CHECK_DEADLOCK FALSE
