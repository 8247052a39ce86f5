CONSTANTS
  Locked = FALSE
SPECIFICATION Spec
INVARIANTS Safe
CHECK_DEADLOCK FALSE
