SPECIFICATION Spec
CONSTANTS Q = 5
 Es = {3}
 Tweaks = {2}
 Rzs = {1}
 Slopes = {0, 3}
INVARIANTS Quorums Valid Zero Only Shares
CHECK_DEADLOCK FALSE
