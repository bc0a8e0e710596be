SPECIFICATION Spec
CONSTANTS Q = 5
 Typ = "mul"
 Wide = FALSE
INVARIANTS Inv
CHECK_DEADLOCK FALSE
