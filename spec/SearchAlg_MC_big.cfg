SPECIFICATION Spec
CONSTANTS
  Docs = {1, 2, 3}
  Terms = {"a", "b"}
  Impacts = {1, 2, 3}
  KSet = {1, 2, 3}
  OSet = {1, 2, 3, 5}
  BudgetSet <- BudgetsT
  MinSet = {0, 4}
  QuerySet <- Queries3
  Cap = 255
  RaiseAfterFill = TRUE
INVARIANTS Contract HeapBounded BudgetKept HeapIsTop EveryCandidateReachesBar
