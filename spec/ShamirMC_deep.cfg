SPECIFICATION Spec
CONSTANTS Q = 7
 MaxLen = 3
 Orders = TRUE
INVARIANTS Ring Interpolate Hiding Commit
CHECK_DEADLOCK FALSE
