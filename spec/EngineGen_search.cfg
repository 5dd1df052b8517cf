SPECIFICATION Spec
CONSTANTS
  Depth = 40
  NDocs = 7
  TermNames = {"a", "bb", "ccc"}
  MaxImp = 4
  Flavour = "search"
INVARIANT Emit
CONSTRAINT Bound
