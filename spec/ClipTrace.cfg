INIT Init
NEXT Next
VIEW View
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
