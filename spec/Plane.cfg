CONSTANTS Matrix = "design" Depth = 2
INIT Init
NEXT Next
INVARIANTS UnitNormal FrameFollows AnglesRebuild LocalIsDistance Isometry Emit
CHECK_DEADLOCK FALSE
