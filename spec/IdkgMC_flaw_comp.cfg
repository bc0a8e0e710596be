SPECIFICATION Spec
CONSTANTS Q = 5
 Typ = "msk"
 CompOk <- LaxCompOk
 Wide = FALSE
INVARIANTS Inv
CHECK_DEADLOCK FALSE
