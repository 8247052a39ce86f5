CONSTANTS
  Users = {1, 2}
  Owners = {3, 4}
  Rounds = 2
  Counts = FALSE
SPECIFICATION Spec
INVARIANTS NoneLeft
CHECK_DEADLOCK FALSE
