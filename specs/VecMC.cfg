SPECIFICATION Spec
CONSTANTS MaxLen = 3
          Vals = {0, 1, 4}
INVARIANTS InsertKeepsOrder DiffRebuilds
PROPERTIES SortedOnce
CHECK_DEADLOCK FALSE
VIEW View
