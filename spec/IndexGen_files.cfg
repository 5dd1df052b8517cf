SPECIFICATION Spec
CONSTANTS
  Depth = 45
  Flavour = "files"
INVARIANT Emit
CONSTRAINT Bound
