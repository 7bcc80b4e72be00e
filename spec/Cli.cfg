CONSTANTS
  Kind = "order"
  MinOpts = 0
  MaxOpts = 3
SPECIFICATION Spec
INVARIANTS InOrder Reported Careful Out
CHECK_DEADLOCK FALSE
