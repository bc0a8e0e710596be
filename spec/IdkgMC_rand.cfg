SPECIFICATION Spec
CONSTANTS Q = 5
 Typ = "rand"
 Wide = FALSE
INVARIANTS Inv
CHECK_DEADLOCK FALSE
