SPECIFICATION Spec
CONSTANTS
  Values = {0, 1, 3, 7}
  Longest = 5
INVARIANTS RanksOk CorrelationLaws TestLaws
CHECK_DEADLOCK FALSE
