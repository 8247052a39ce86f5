CONSTANTS
  Callers = {1, 2}
  Calls = 2
  MaxBreaks = 2
  Wait = FALSE
  Early = FALSE
SPECIFICATION Spec
INVARIANTS NeverCut
CHECK_DEADLOCK FALSE
