SPECIFICATION Spec
CONSTANTS
  Depth = 45
  Flavour = "memory"
INVARIANT Emit
CONSTRAINT Bound
