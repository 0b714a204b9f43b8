SPECIFICATION Spec
CONSTANTS K = 3
R = 3
INVARIANTS Prefix NoEarlyEnd NoLostWakeup
PROPERTY AllEnd
CHECK_DEADLOCK FALSE
