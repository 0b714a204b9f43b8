SPECIFICATION Spec
CONSTANTS Hops = 3
Gaps = FALSE
Flatten = FALSE
LeaveOut = FALSE
Again = TRUE
INVARIANT Faithful
CHECK_DEADLOCK FALSE
