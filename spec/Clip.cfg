INIT Init
NEXT Next
INVARIANTS NothingAbove KeepsBelow OneEdge Chains AtLeastTriangle Emit
CHECK_DEADLOCK FALSE
