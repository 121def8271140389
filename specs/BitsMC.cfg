SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANT TypeOK
PROPERTIES Shrinks BufOnly StreamOnly
CHECK_DEADLOCK FALSE
VIEW View
