SPECIFICATION Spec
CONSTANTS Hops = 3
Gaps = FALSE
Flatten = FALSE
LeaveOut = TRUE
Again = FALSE
INVARIANT Faithful
CHECK_DEADLOCK FALSE
