SPECIFICATION Spec
CONSTANTS Q = 5
 Typ = "mul"
 Wide = TRUE
INVARIANTS Inv
CHECK_DEADLOCK FALSE
