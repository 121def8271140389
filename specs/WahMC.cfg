SPECIFICATION Spec
CONSTANT N = 5
INVARIANT Within
INVARIANT Laws
VIEW View
CHECK_DEADLOCK FALSE
