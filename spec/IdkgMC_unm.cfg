SPECIFICATION Spec
CONSTANTS Q = 5
 Typ = "unm"
 Wide = FALSE
INVARIANTS Inv
CHECK_DEADLOCK FALSE
