INIT Init
NEXT Next
INVARIANTS Consistency OutwardWhenClosed OnlyReverses EmitInit
CHECK_DEADLOCK FALSE
