SPECIFICATION Spec
CONSTANTS
  MaxLen = 1
  MaxHeap = 1
  MaxIn = 3
  Alphabet = {0, 1, 2, 3, 255}
INVARIANTS RoundTrip Incomplete Again AnyInput Stable
CHECK_DEADLOCK FALSE
