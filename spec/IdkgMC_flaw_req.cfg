SPECIFICATION Spec
CONSTANTS Q = 5
 Typ = "msk"
 OpReq <- LaxOpReq
 Provable <- Unproven
 Wide = FALSE
INVARIANTS Inv
CHECK_DEADLOCK FALSE
