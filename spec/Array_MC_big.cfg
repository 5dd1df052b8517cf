SPECIFICATION Spec
CONSTANTS Threads = 3
 Per = 2
 First = 1
 Grow <- Same
INVARIANTS Kept NoLoss
