SPECIFICATION Spec
CONSTANTS Q = 5
 Typ = "unm"
 Wide = TRUE
INVARIANTS Inv
CHECK_DEADLOCK FALSE
