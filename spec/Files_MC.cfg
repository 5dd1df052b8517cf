SPECIFICATION Spec
CONSTANTS Buffers = {1, 2, 3, 5} Most = 5 Letters = {1, 2}
INVARIANTS Right Told Whole Size Bounded
CHECK_DEADLOCK FALSE
