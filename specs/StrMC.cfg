SPECIFICATION Spec
CONSTANT N = 5
INVARIANTS SplitJoin SplitPlain SkipEmpty SplitNoSep EscRound CsvRound TrimTwice FindIs Order SpliceIs
CHECK_DEADLOCK FALSE
