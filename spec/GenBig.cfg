SPECIFICATION BSpec
INVARIANTS BOut Splits Tokenwise
CHECK_DEADLOCK FALSE
