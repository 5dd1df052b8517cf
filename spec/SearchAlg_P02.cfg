SPECIFICATION Spec
CONSTANTS
  Docs = {1, 2, 3}
  Terms = {"a", "b"}
  Impacts = {1, 3}
  KSet = {1, 2, 3}
  OSet = {1}
  BudgetSet <- BudgetsP02
  MinSet = {0}
  QuerySet <- Queries
  Cap = 255
  RaiseAfterFill = TRUE
INVARIANTS Contract HeapBounded BudgetKept HeapIsTop EveryCandidateReachesBar
