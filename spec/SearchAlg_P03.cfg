SPECIFICATION Spec
CONSTANTS
  Docs = {1, 2, 3}
  Terms = {"a", "b"}
  Impacts = {1, 3}
  KSet = {1, 2, 3}
  OSet = {1,2,4}
  BudgetSet <- BudgetsP03
  MinSet = {0,4}
  QuerySet <- Queries
  Cap = 255
  RaiseAfterFill = TRUE
INVARIANTS Contract HeapBounded BudgetKept HeapIsTop EveryCandidateReachesBar
