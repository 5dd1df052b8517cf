SPECIFICATION Spec
CONSTANTS Threads = 1
 Per = 3
 BlockSize = 8
 Sizes = {1, 3, 8, 11}
 Aligns = {1, 4}
INVARIANTS Sound Bounded
