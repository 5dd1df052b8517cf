SPECIFICATION Spec
CONSTANTS MaxUnits = 2
 Values <- Few
 Emit = FALSE
INVARIANTS Decodes Prefix Truncated
