SPECIFICATION Spec
CONSTANTS Q = 5
 Typ = "msk"
 Wide = FALSE
INVARIANTS Inv
CHECK_DEADLOCK FALSE
