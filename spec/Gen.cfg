SPECIFICATION GSpec
INVARIANTS Out Correct NotMasked Bounded Honest
CHECK_DEADLOCK FALSE
