CONSTANTS
  Users = {1, 2}
  Owners = {3, 4}
  Rounds = 2
  Counts = TRUE
SPECIFICATION Spec
INVARIANTS NoneLeft CountRight
PROPERTIES AllEnd
CHECK_DEADLOCK FALSE
