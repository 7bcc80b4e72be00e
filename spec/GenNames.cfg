CONSTANTS
  MaxRows = 2
  Players = {1, 2, 3, 4}
SPECIFICATION Spec
INVARIANTS Everyone Ascii Failures Out
CHECK_DEADLOCK FALSE
