SPECIFICATION Spec
CONSTANTS W = 2 Longest = 3 Steps = 4 Room = 3
INVARIANTS Same Ended
VIEW View
