SPECIFICATION Spec
CONSTANTS W = 2 Longest = 4 Steps = 6 Room = 5
INVARIANTS Same Ended
VIEW View
