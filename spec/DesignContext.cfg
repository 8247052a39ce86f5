CONSTANTS
  Locked = TRUE
SPECIFICATION Spec
INVARIANTS Safe AllCancelled Shields Ordered
PROPERTIES AllEnd
CHECK_DEADLOCK FALSE
