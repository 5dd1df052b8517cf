SPECIFICATION Spec
CONSTANTS Buffers = {1, 2, 3, 4, 5, 7} Most = 6 Letters = {1, 2}
INVARIANTS Right Told Whole Size Bounded
CHECK_DEADLOCK FALSE
