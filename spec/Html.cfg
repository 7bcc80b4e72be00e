CONSTANTS
  Lexemes = {"w","s","e","lt","p","n","o","c","v","m","d","q","z","sc","xs","st","xt","ti","xi","ta","xa","cut","cum"}
  MaxLen = 3
  Pre = 0
SPECIFICATION Spec
INVARIANTS Verbatim Whole Resumes Out
CHECK_DEADLOCK FALSE
