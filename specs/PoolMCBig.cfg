SPECIFICATION Spec
CONSTANTS MaxId = 2
 Room = 3
 Kinds = {"stack", "ring", "fifo"}
VIEW view
INVARIANTS NoOverlap Sized InOpenFrame ActiveOpen CkptOpen
PROPERTY OnlyOwner
CHECK_DEADLOCK FALSE
