SPECIFICATION Spec
CONSTANTS
  Workers = {1, 2, 3, 4}
  Queries = {1, 2, 3, 4, 5}
INVARIANTS AtMostOnce ExactlyOnce LeaveOnlyWhenAllTaken
