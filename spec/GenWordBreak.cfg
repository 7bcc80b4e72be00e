CONSTANTS
  Alphabet = {}
  MaxLen = 3
  WithTrunc = TRUE
SPECIFICATION Spec
INVARIANTS Emit Covers Separable Stretch
CHECK_DEADLOCK FALSE
