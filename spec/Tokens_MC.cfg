SPECIFICATION Spec
CONSTANTS
  Use = {1, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 16}
  Longest_ = 4
INVARIANTS Sound SameWords
CHECK_DEADLOCK FALSE
