SPECIFICATION Spec
CONSTANTS
  Values = {0, 1, 3}
  Longest = 4
INVARIANTS RanksOk CorrelationLaws TestLaws
CHECK_DEADLOCK FALSE
