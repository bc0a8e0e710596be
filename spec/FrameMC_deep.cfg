SPECIFICATION Spec
CONSTANTS Names = {0, 1, 2, 3, 4, 5, 6, 7, 8}
 Types = {1, 2, 4}
 Lens = {0, 4, 6, 256}
 Max = 3
INVARIANTS Reads Sorted Same Refuses
CHECK_DEADLOCK FALSE
