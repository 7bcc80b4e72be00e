CONSTANTS
  Kinds = {"pu","tb","lf","cr","sp","ls","ot","bb"}
  MaxLen = 4
  MaxMade = 1
SPECIFICATION Spec
INVARIANTS Functional LemmaIndependent Compositional Out
CHECK_DEADLOCK FALSE
