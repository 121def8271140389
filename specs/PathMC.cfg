SPECIFICATION Spec
CONSTANTS
    N = 7
    M = 4
INVARIANTS SimplKeeps SimplTwice Canon SameForm SafeStays DirBase DirUp PartsCut RelLeads JoinLeads
CHECK_DEADLOCK FALSE
