SPECIFICATION Spec
CONSTANT Steps = 600
PROPERTY Succ
CHECK_DEADLOCK FALSE
