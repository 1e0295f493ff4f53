INIT Init
NEXT Next
INVARIANTS ClosedIffWhole BoundaryIsCycle Complement ConformalAlways Emit
CHECK_DEADLOCK FALSE
