SPECIFICATION Spec
CONSTANT How = "cache"
INVARIANTS SerialResults Untouched
CHECK_DEADLOCK FALSE
