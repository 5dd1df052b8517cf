SPECIFICATION Spec
CONSTANTS Threads = 2
 Per = 3
 First = 1
 Grow <- OneMore
INVARIANTS Kept NoLoss
