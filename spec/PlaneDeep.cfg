CONSTANTS Matrix = "design" Depth = 3
INIT Init
NEXT Next
INVARIANTS UnitNormal FrameFollows AnglesRebuild LocalIsDistance Isometry Emit
CHECK_DEADLOCK FALSE
