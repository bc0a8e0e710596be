SPECIFICATION Spec
CONSTANTS Q = 5
 Es = {0, 3}
 Tweaks = {2}
 Rzs = {1}
 Slopes = {0, 1, 2, 3, 4}
INVARIANTS Quorums Valid Zero Only
CHECK_DEADLOCK FALSE
