SPECIFICATION Spec
CONSTANTS Q = 5
 Typ = "rand"
 Wide = TRUE
INVARIANTS Inv
CHECK_DEADLOCK FALSE
