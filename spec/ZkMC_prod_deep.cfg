SPECIFICATION Spec
CONSTANTS Q = 5
 Typ = "prod"
 Many = TRUE
INVARIANTS Complete Sound Hidden
CHECK_DEADLOCK FALSE
