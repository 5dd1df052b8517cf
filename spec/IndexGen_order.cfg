SPECIFICATION Spec
CONSTANTS
  Depth = 45
  Flavour = "order"
INVARIANT Emit
CONSTRAINT Bound
