SPECIFICATION Spec
CONSTANT Steps = 70000
PROPERTY Succ
CHECK_DEADLOCK FALSE
