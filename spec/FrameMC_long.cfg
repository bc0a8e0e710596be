SPECIFICATION Spec
CONSTANTS Names = {1, 4}
 Types = {1}
 Lens = {0, 256, 65535, 65536}
 Max = 2
INVARIANTS Reads Sorted Same Refuses
CHECK_DEADLOCK FALSE
