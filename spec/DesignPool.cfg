CONSTANTS
  Workers = {1, 2}
  Callers = {1, 2}
  Calls = 2
  Size = 1
  Decide = "lock"
SPECIFICATION Spec
INVARIANTS ExactlyOnce InOrder NoneStranded
PROPERTIES AllStart
CHECK_DEADLOCK FALSE
