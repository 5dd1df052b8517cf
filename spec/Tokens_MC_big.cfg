SPECIFICATION Spec
CONSTANTS
  Use = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 15, 16}
  Longest_ = 5
INVARIANTS Sound SameWords
CHECK_DEADLOCK FALSE
