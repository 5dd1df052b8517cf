SPECIFICATION GenSpec
CONSTANTS N = 12 V = 6
INVARIANT Show
