SPECIFICATION TraceSpec
CONSTANT NK = 64
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
