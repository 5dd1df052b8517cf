SPECIFICATION Spec
CONSTANTS
  Pieces = 6
  Sizes = {2, 3, 5, 7, 8, 9, 10, 11, 12, 15, 30}
INVARIANTS Whole Fits
CHECK_DEADLOCK FALSE
