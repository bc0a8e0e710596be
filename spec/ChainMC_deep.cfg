SPECIFICATION Spec
CONSTANTS Q = 5
 Max = 4
 Seeds = {1}
INVARIANTS Value_ Held Quorum Kinds_ Refuses Caught
CHECK_DEADLOCK FALSE
