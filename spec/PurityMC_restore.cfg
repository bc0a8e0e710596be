SPECIFICATION Spec
CONSTANT How = "restore"
INVARIANTS SerialResults Untouched
CHECK_DEADLOCK FALSE
