SPECIFICATION Spec
CONSTANTS MaxUnits = 5
 Values <- All
 Emit = TRUE
INVARIANTS Done
