SPECIFICATION Spec
CONSTANTS
  Alphabet = {97, 101, 121, 105, 108, 116, 115, 110, 100, 103}
  Longest = 5
INVARIANTS Shape
CHECK_DEADLOCK FALSE
