SPECIFICATION MCSpec
CONSTANTS MAXCMD = 3
 MAXITER = 2
INVARIANTS RefsRegistered TodoRegistered WatchRegistered NotLate CurRegistered NoLazySleep
CHECK_DEADLOCK FALSE
