SPECIFICATION Spec
CONSTANTS MaxT = 2
MaxP = 1
MaxC = 2
MaxN = 2
INVARIANTS Allowed Finished
CHECK_DEADLOCK FALSE
