CONSTANTS
  Conns = {1, 2}
  Limit = 2
  Workers = 2
  Packets = 1
  Stays = FALSE
SPECIFICATION Spec
INVARIANTS NotUsed
CHECK_DEADLOCK FALSE
