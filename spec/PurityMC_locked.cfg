SPECIFICATION Spec
CONSTANT How = "locked"
INVARIANTS SerialResults Untouched
CHECK_DEADLOCK FALSE
