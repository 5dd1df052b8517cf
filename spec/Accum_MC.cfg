SPECIFICATION Spec
CONSTANTS N = 3 Epochs = 3 V = 2 Shifts = {0, 1} Steps = 8
INVARIANT Zeroes
VIEW View
