SPECIFICATION GenSpec
CONSTANTS Buffers = {1, 2, 3, 5, 16} Most = 6 Letters = {1, 2}
INVARIANTS Show
CHECK_DEADLOCK FALSE
