INIT Init
NEXT Next
CONSTANTS
  Depth <- TheDepth
  Sizes <- TheSizes
  Focus = "text"
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Shown DrawnIsShown Inside
PROPERTIES OnlyDirty WriteBound CursorMoves OpaqueWins KeptOnResize
CHECK_DEADLOCK FALSE
