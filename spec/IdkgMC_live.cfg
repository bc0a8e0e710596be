SPECIFICATION FairSpec
CONSTANTS Q = 5
 Typ = "unm"
 Wide = FALSE
INVARIANTS Inv
PROPERTIES Done
CHECK_DEADLOCK FALSE
