CONSTANTS
  Filters = {1, 2, 3}
  MaxOps = 3
  MaxArgs = 2
  Long = {}
  MaxLen = 6
  Pre = 0
SPECIFICATION Spec
INVARIANTS Meaning Out
CHECK_DEADLOCK FALSE
