CONSTANTS
  MinTok = 0
  MaxTok = 3
  MaxSel = 2
  MaxOps = 5
  Classes = {1,2,3,4}
  Kinds = {"where","words","lemmas","distinct"}
SPECIFICATION Spec
INVARIANTS Once Ordered Right Alone Out
CHECK_DEADLOCK FALSE
