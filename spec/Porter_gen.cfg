SPECIFICATION GenSpec
CONSTANTS
  Alphabet = {97}
  Longest = 6
INVARIANTS Show
CHECK_DEADLOCK FALSE
