SPECIFICATION Spec
CONSTANTS Threads = 3
 Per = 2
 Keys = {1, 2, 3}
INVARIANTS Kept Parents RootParent
