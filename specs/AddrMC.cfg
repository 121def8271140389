SPECIFICATION Spec
INVARIANTS Wider Bits Rebuild Tls NoTls Shares
CHECK_DEADLOCK FALSE
