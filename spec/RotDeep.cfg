CONSTANTS Depth = 5
INIT Init
NEXT Next
INVARIANTS SameRotation CardanStandsForIt Proper UnitQuaternion Emit
CHECK_DEADLOCK FALSE
