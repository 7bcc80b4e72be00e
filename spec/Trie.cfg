CONSTANTS
  Tries = {1}
  MaxAdds = 2
  MaxKey = 2
  MaxQuery = 2
  Pre = 2
  Cased = FALSE
SPECIFICATION Spec
INVARIANTS Separate WalkIsSearch LastWins NoEmptyKey Out
CHECK_DEADLOCK FALSE
