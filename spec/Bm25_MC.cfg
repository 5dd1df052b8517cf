SPECIFICATION Spec
CONSTANTS
 Docs = 4
 Most = 3
 Long = 4
INVARIANTS Monotone Strict Everywhere Bound Order Ends Narrow Undone
CHECK_DEADLOCK FALSE
