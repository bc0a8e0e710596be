SPECIFICATION Spec
CONSTANTS Q = 7
 Typ = "eq"
 Many = TRUE
INVARIANTS Complete Sound Hidden
CHECK_DEADLOCK FALSE
