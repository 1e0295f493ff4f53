\* the pinned commit: expected to violate NothingStale (documents the defects repaired in /repo)
CONSTANTS Matrix = "base" Emit = "none"
INIT Init
NEXT Next
INVARIANT NothingStale
VIEW View
CHECK_DEADLOCK FALSE
