SPECIFICATION Spec
CONSTANTS K = 3 V = 6 Steps = 12
INVARIANTS Honest Show
