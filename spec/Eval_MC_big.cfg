SPECIFICATION Spec
CONSTANTS
  Docs = {1, 2, 3, 4, 5}
  Grades = {0, 2}
  Costs = {1, 7}
  Length = 4
  Depths = {0, 1, 2, 3, 5}
INVARIANTS Bounded Perfect
PROPERTIES Rewarded
CHECK_DEADLOCK FALSE
