SPECIFICATION Spec
CONSTANTS Q = 5
 Es = {0, 3}
 Tweaks = {2}
 Rzs = {1, 4}
 Slopes = {0, 2, 3}
INVARIANTS Quorums Valid Zero Only Shares
CHECK_DEADLOCK FALSE
