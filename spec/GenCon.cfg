SPECIFICATION Spec
INVARIANT Functional
CHECK_DEADLOCK FALSE
