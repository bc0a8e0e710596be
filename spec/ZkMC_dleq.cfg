SPECIFICATION Spec
CONSTANTS Q = 5
 Typ = "dleq"
 Many = FALSE
INVARIANTS Complete Sound Hidden
CHECK_DEADLOCK FALSE
