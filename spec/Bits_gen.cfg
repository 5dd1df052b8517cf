SPECIFICATION GenSpec
CONSTANTS W = 64 Longest = 200 Steps = 25 Room = 1
INVARIANTS Same Show
