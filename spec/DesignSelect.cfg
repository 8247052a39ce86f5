CONSTANTS
  Threads = {1, 2, 3}
  Wants <- WantsDef
  Writers = {4}
  Cap = 2
  Early = TRUE
SPECIFICATION Spec
INVARIANTS Mutual NothingLost ReportsReal FlagsRight
PROPERTIES Woken Told
CHECK_DEADLOCK FALSE
