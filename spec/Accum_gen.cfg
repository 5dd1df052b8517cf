SPECIFICATION GenSpec
CONSTANTS N = 60 Epochs = 15 V = 4000 Shifts = {1, 2, 3, 5} Steps = 60
INVARIANTS Zeroes Show
