CONSTANTS
  Conns = {1, 2}
  Limit = 1
  Workers = 2
  Packets = 1
  Stays = TRUE
SPECIFICATION Spec
INVARIANTS NotUsed Permits OneEach Counted
PROPERTIES MadeRoom Answered
CHECK_DEADLOCK FALSE
