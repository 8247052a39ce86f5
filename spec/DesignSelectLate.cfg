CONSTANTS
  Threads = {1, 2}
  Wants <- WantsDef
  Writers = {4}
  Cap = 2
  Early = FALSE
SPECIFICATION Spec
INVARIANTS NothingLost
CHECK_DEADLOCK FALSE
