CONSTANTS Depth = 3 Rule = "design"
INIT Init
NEXT Next
INVARIANTS PathIndependent Symmetric LeastAtCog Emit
CHECK_DEADLOCK FALSE
