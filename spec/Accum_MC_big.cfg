SPECIFICATION Spec
CONSTANTS N = 4 Epochs = 3 V = 2 Shifts = {0, 1, 2} Steps = 9
INVARIANT Zeroes
VIEW View
