CONSTANTS
  Callers = {1, 2}
  Calls = 1
  MaxBreaks = 2
  Wait = TRUE
  Early = TRUE
SPECIFICATION Spec
INVARIANTS AtMostOnce Own OkExecuted NeverCut Reasons NoneStopped
PROPERTIES AllEnd
CHECK_DEADLOCK FALSE
