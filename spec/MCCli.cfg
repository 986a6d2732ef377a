INIT Init
NEXT Next
INVARIANT RowsAlign
INVARIANT SamplesFit
INVARIANT ColoursFallBack
INVARIANT OneLine
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
