SPECIFICATION Spec
CONSTANTS Keys = {0, 1}
          MaxSnap = 2
          Nul = FALSE
INVARIANTS TypeOK NoZero
PROPERTIES Forward Whole Durable Frozen
CHECK_DEADLOCK FALSE
VIEW View
