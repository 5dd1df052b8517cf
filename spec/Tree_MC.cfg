SPECIFICATION Spec
CONSTANTS Threads = 3
 Per = 1
 Keys = {1, 2, 3}
INVARIANTS Kept Parents RootParent
