SPECIFICATION Spec
CONSTANTS Keys = {0, 1}
          MaxSnap = 1
          Nul = TRUE
INVARIANTS TypeOK NoZero
PROPERTIES Forward Whole Durable Frozen
CHECK_DEADLOCK FALSE
VIEW View
