CONSTANTS
  Queues = {1, 2}
  MaxOps = 4
  MaxDrop = 2
  Pre = 1
SPECIFICATION Spec
INVARIANTS Conserved Fifo Out
PROPERTY Scaled
CHECK_DEADLOCK FALSE
