SPECIFICATION Spec
CONSTANTS NK = 3 MaxKv = 2 MaxV = 2
INVARIANT LenIsCount
PROPERTY SealedIsFrozen
CHECK_DEADLOCK FALSE
