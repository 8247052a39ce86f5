SPECIFICATION Spec
CONSTANTS
  MaxLen = 0
  MaxHeap = 0
  MaxIn = 5
  Alphabet = {0, 1, 2, 3, 255}
INVARIANTS RoundTrip Incomplete Again AnyInput Stable
CHECK_DEADLOCK FALSE
