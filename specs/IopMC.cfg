SPECIFICATION Spec
INVARIANTS RoundTrip Canonical Truncated Evolution
CHECK_DEADLOCK FALSE
