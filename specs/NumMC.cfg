SPECIFICATION Spec
INVARIANTS Value Prefix Minus Blank Arith Point Units
CHECK_DEADLOCK FALSE
