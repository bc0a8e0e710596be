SPECIFICATION Spec
CONSTANT How = "inplace"
INVARIANTS SerialResults Untouched
CHECK_DEADLOCK FALSE
