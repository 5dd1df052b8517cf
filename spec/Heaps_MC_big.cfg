SPECIFICATION Spec
CONSTANTS N = 10 V = 3
INVARIANT Inductive
