SPECIFICATION Spec
INVARIANT AllDifferent
CHECK_DEADLOCK FALSE
