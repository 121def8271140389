SPECIFICATION TraceSpec
INVARIANTS RefsRegistered TodoRegistered WatchRegistered
CONSTRAINT Progress
POSTCONDITION TraceFollowed
CHECK_DEADLOCK FALSE
