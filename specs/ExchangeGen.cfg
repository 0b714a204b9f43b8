SPECIFICATION Spec
CONSTANTS MaxT = 5
MaxP = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
