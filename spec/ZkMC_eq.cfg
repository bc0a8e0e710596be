SPECIFICATION Spec
CONSTANTS Q = 5
 Typ = "eq"
 Many = FALSE
INVARIANTS Complete Sound Hidden
CHECK_DEADLOCK FALSE
