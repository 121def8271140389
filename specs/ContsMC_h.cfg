SPECIFICATION Spec
CONSTANTS Kind = "h"
          Nodes = {0, 1, 2, 3}
          Keys = {0, 1, 2}
          MaxLen = 5
INVARIANTS NodeOnce OneNodePerKey
PROPERTIES NoneLost OneMore TakeInOrder
CHECK_DEADLOCK FALSE
VIEW View
