SPECIFICATION Spec
CONSTANTS
  Depth = 40
  NDocs = 4
  TermNames = {"a", "bb", "ccc"}
  MaxImp = 4
  Flavour = "life"
INVARIANT Emit
CONSTRAINT Bound
