SPECIFICATION Spec
CONSTANTS
  Workers = {1, 2, 3}
  Queries = {1, 2, 3}
INVARIANTS AtMostOnce ExactlyOnce LeaveOnlyWhenAllTaken
PROPERTY Terminates
