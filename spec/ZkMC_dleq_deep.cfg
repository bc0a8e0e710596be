SPECIFICATION Spec
CONSTANTS Q = 7
 Typ = "dleq"
 Many = TRUE
INVARIANTS Complete Sound Hidden
CHECK_DEADLOCK FALSE
