CONSTANTS NV = 4
INIT Init
NEXT Next
INVARIANTS NeverFar IdenticalMerge Emit
CHECK_DEADLOCK FALSE
