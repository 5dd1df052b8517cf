SPECIFICATION GenSpec
CONSTANTS Symbols = {1, 2, 3, 4, 5, 6, 7, 8}
 MaxLen = 9
 MaxSteps = 14
 Emit = TRUE
INVARIANTS Done
