CONSTANTS Matrix = "design" Emit = "edges"
INIT Init
NEXT Next
INVARIANT NothingStale
VIEW View
CHECK_DEADLOCK FALSE
