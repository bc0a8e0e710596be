SPECIFICATION Spec
CONSTANTS Q = 5
 Typ = "msk"
 Wide = TRUE
INVARIANTS Inv
CHECK_DEADLOCK FALSE
