SPECIFICATION Spec
CONSTANTS
 Options = 2
 Args = 3
 Wide = 3
 Types = {"bool", "string"}
 Numbers <- ManyNumbers
INVARIANTS Right Joined Frame
CHECK_DEADLOCK FALSE
