\* the pinned commit: expected to violate FrameFollows (documents the defect repaired in /repo)
CONSTANTS Matrix = "base" Depth = 2
INIT Init
NEXT Next
INVARIANTS FrameFollows
CHECK_DEADLOCK FALSE
