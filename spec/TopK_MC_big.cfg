SPECIFICATION Spec
CONSTANTS K = 3 V = 3 Steps = 13
INVARIANT Honest
VIEW View
