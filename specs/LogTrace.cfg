SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANT Ids <- AllIds
         Dflt <- TheDflt
VIEW View
