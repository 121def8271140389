SPECIFICATION Spec
CONSTANTS NK = 2 MaxKv = 1 MaxV = 2
INVARIANT LenIsCount
PROPERTY SealedIsFrozen
CHECK_DEADLOCK FALSE
