SPECIFICATION Spec
CONSTANTS Symbols = {1, 2, 3}
 MaxLen = 4
 MaxSteps = 3
 Emit = FALSE
INVARIANTS Owed Lossless
