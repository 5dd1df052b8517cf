SPECIFICATION Spec
CONSTANTS K = 3 V = 2 Steps = 9
INVARIANT Honest
VIEW View
