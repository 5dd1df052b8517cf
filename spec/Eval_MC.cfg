SPECIFICATION Spec
CONSTANTS
  Docs = {1, 2, 3, 4}
  Grades = {0, 1}
  Costs = {1, 3}
  Length = 3
  Depths = {0, 1, 2, 3}
INVARIANTS Bounded Perfect
PROPERTIES Rewarded
CHECK_DEADLOCK FALSE
