INIT Init
NEXT Next
INVARIANT Agree Laws
CHECK_DEADLOCK FALSE
