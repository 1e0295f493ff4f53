\* the pinned commit: expected to violate PathIndependent (documents the defect repaired in /repo)
CONSTANTS Depth = 3 Rule = "base"
INIT Init
NEXT Next
INVARIANTS PathIndependent
CHECK_DEADLOCK FALSE
