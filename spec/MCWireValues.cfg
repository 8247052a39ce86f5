SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  MaxHeap = 2
  MaxIn = 1
  Alphabet = {0, 1, 2, 3, 255}
INVARIANTS RoundTrip Incomplete Again AnyInput Stable
CHECK_DEADLOCK FALSE
