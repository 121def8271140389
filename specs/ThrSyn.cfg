SPECIFICATION Spec
CONSTANTS
  Workers = {1, 2, 3}
  Extra = 2
INVARIANTS NoTouchAfterWipe WaitMeansDone NoNegative
PROPERTY OwnerEnds
