SPECIFICATION SourceSpec
CONSTANTS Buffers = {1} Most = 6 Letters = {1, 2}
INVARIANTS Right
CHECK_DEADLOCK FALSE
