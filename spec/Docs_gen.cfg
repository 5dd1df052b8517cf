SPECIFICATION GenSpec
CONSTANTS Pieces = 1 Sizes = {1}
INVARIANTS Show
CHECK_DEADLOCK FALSE
