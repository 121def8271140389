SPECIFICATION TraceSpec
CONSTANT NK = 4096
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
