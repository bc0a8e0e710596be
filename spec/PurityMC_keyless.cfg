SPECIFICATION Spec
CONSTANT How = "keyless"
INVARIANTS SerialResults Untouched
CHECK_DEADLOCK FALSE
