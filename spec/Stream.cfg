CONSTANTS
  MaxTok = 3
  MaxOps = 4
  Ops = {"next","scan","slice","string","count","write","w0","w1","w3"}
  Size = 2
  Fails = {TRUE,FALSE}
  Pre = 1
SPECIFICATION Spec
INVARIANTS Once EndOnlyAtEnd NotMasked Out
CHECK_DEADLOCK FALSE
