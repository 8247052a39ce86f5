CONSTANTS
  Workers = {1, 2}
  Callers = {1, 2}
  Calls = 2
  Size = 1
  Decide = "select"
SPECIFICATION Spec
INVARIANTS NoneStranded
CHECK_DEADLOCK FALSE
