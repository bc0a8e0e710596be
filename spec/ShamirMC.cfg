SPECIFICATION Spec
CONSTANTS Q = 5
 MaxLen = 3
 Orders = FALSE
INVARIANTS Ring Interpolate Hiding Commit
CHECK_DEADLOCK FALSE
