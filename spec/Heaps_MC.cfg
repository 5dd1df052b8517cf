SPECIFICATION Spec
CONSTANTS N = 9 V = 2
INVARIANT Inductive
