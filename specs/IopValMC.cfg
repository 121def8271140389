SPECIFICATION Spec
INVARIANTS Injective Visits
CHECK_DEADLOCK FALSE
