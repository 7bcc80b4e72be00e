CONSTANTS
  Slots = {1}
  Wide = TRUE
SPECIFICATION Spec
INVARIANTS Independent Served Out
CHECK_DEADLOCK FALSE
