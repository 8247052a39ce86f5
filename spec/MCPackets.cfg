SPECIFICATION Spec
CONSTANTS
  MaxRun = 3
  Mac <- TheMac
  MacLen = 2
  Alphabet = {0, 1, 2}
  MaxData = 2
  MaxPackets = 3
  MaxFaults = 1
INVARIANTS UntouchedArrive ExactlyOnce
CHECK_DEADLOCK FALSE
