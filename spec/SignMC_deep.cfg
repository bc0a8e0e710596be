SPECIFICATION Spec
CONSTANTS Q = 5
 Es = {0, 1, 3, 4}
 Tweaks = {0, 2}
 Rzs = {1, 3}
 Slopes = {0, 1, 2, 3, 4}
INVARIANTS Quorums Valid Zero Only
CHECK_DEADLOCK FALSE
