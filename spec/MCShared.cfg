CONSTANTS
  Streams = {1, 2, 3}
  Pulls = 2
  Fail = FALSE
  Fine = TRUE
SPECIFICATION Spec
INVARIANTS Alone Fails NoPartialUse OneLoader
PROPERTY GetsThrough
CHECK_DEADLOCK FALSE
