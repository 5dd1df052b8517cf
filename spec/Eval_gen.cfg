SPECIFICATION GenSpec
CONSTANTS Docs = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
  Grades = {0} Costs = {1} Length = 3 Depths = {0}
INVARIANTS Show
CHECK_DEADLOCK FALSE
