SPECIFICATION Spec
CONSTANTS
    N = 4
    M = 4
INVARIANTS Metric OneEdit Order LikeSelf LikeAny LikeEsc LikeNorm Counter
CHECK_DEADLOCK FALSE
