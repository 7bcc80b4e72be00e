CONSTANTS
  MaxPages = 2
  Limit = 20
  MaxItems = 1
  Kinds = {"ok", "error", "junk", "down"}
  Waits = {0, 11}
  Early = TRUE
  Pre = 1
SPECIFICATION Spec
INVARIANTS AllThere NothingElse OneMeaning Pages Failures Out
CHECK_DEADLOCK FALSE
