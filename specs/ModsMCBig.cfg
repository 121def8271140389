SPECIFICATION Spec
CONSTANTS Ids = {0, 1, 2, 3, 4}
          MaxMan = 1
INVARIANTS DepsLoaded Exact Progress Ordered
CHECK_DEADLOCK FALSE
