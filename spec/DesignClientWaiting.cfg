CONSTANTS
  Callers = {1, 2}
  Calls = 1
  MaxBreaks = 2
  Wait = TRUE
  Early = FALSE
SPECIFICATION Spec
INVARIANTS NoneStopped
CHECK_DEADLOCK FALSE
