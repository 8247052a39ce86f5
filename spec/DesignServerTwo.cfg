CONSTANTS
  Conns = {1, 2}
  Limit = 2
  Workers = 2
  Packets = 2
  Stays = TRUE
INIT Init
NEXT Next
INVARIANTS NotUsed Permits OneEach Counted
CHECK_DEADLOCK FALSE
