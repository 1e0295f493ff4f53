CONSTANTS Matrix = "design" Emit = "histories"
INIT Init
NEXT SimNext
INVARIANTS NothingStale EmitHistory
CHECK_DEADLOCK FALSE
