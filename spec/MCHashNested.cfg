SPECIFICATION Spec
INVARIANT NestedDifferent
CHECK_DEADLOCK FALSE
