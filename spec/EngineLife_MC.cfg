SPECIFICATION Spec
CONSTANT MaxCalls = 6
INVARIANTS Limits LoadedIsOnDisk LastScoreWins PercentNeedsIndex
PROPERTIES Frozen RefusedHasNoEffect OneLoad
