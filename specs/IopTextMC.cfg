SPECIFICATION Spec
INVARIANTS ReadBack Unknown Prefix
CHECK_DEADLOCK FALSE
