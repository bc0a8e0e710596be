SPECIFICATION Spec
CONSTANTS Q = 3
 Typ = "prod"
 Many = FALSE
INVARIANTS Complete Sound Hidden
CHECK_DEADLOCK FALSE
