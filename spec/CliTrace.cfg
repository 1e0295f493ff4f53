INIT CInit
NEXT CNext
VIEW View
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
