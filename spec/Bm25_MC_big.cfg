SPECIFICATION Spec
CONSTANTS
 Docs = 12
 Most = 5
 Long = 8
INVARIANTS Monotone Strict Everywhere Bound Order Ends Narrow Undone
CHECK_DEADLOCK FALSE
