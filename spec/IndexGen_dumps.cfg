SPECIFICATION Spec
CONSTANTS
  Depth = 45
  Flavour = "dumps"
INVARIANT Emit
CONSTRAINT Bound
