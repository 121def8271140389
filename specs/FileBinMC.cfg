SPECIFICATION Spec
CONSTANTS Slots = {28, 30, 33}
 Lens = {0, 1, 2, 3, 5, 20, 24, 60}
 MaxRecs = 3
INVARIANTS Apart Ends Prefixes Headers
CHECK_DEADLOCK FALSE
VIEW View
