SPECIFICATION Spec
CONSTANT MaxPend = 6
INVARIANT Bounded ReadsAll Synced
VIEW View
CHECK_DEADLOCK FALSE
