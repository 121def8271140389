SPECIFICATION MCSpec
CONSTANTS MAXCMD = 5
 MAXITER = 1
INVARIANTS RefsRegistered TodoRegistered WatchRegistered NotLate CurRegistered NoLazySleep
CHECK_DEADLOCK FALSE
