SPECIFICATION Spec
CONSTANT How = "pure"
INVARIANTS SerialResults Untouched
CHECK_DEADLOCK FALSE
