CONSTANTS
  Streams = {1, 2}
  Pulls = 4
  Fail = FALSE
  Fine = FALSE
SPECIFICATION Spec
INVARIANTS Alone Fails Out
CHECK_DEADLOCK FALSE
