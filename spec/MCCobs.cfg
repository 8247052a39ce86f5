SPECIFICATION Spec
CONSTANTS
  MaxRun = 3
  Alphabet = {0, 1, 2, 3, 4}
  MaxLen = 7
INVARIANTS EncodesEverything DecodesOnlyEncodings PrefixesAreShorter
CHECK_DEADLOCK FALSE
