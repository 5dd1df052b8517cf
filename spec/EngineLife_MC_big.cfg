SPECIFICATION Spec
CONSTANT MaxCalls = 12
INVARIANTS Limits LoadedIsOnDisk LastScoreWins PercentNeedsIndex
PROPERTIES Frozen RefusedHasNoEffect OneLoad
