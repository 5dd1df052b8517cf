SPECIFICATION Spec
CONSTANTS Symbols = {1, 2}
 MaxLen = 3
 MaxSteps = 3
 Emit = FALSE
INVARIANTS Owed Lossless
