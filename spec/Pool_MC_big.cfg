SPECIFICATION Spec
CONSTANTS Threads = 2
 Per = 2
 BlockSize = 8
 Sizes = {3, 11}
 Aligns = {1, 4}
INVARIANTS Sound
CONSTRAINT Cut
