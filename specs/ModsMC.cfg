SPECIFICATION Spec
CONSTANTS Ids = {0, 1, 2, 3}
          MaxMan = 2
INVARIANTS DepsLoaded Exact Progress Ordered
CHECK_DEADLOCK FALSE
