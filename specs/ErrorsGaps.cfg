SPECIFICATION Spec
CONSTANTS Hops = 3
Gaps = TRUE
Flatten = FALSE
LeaveOut = FALSE
Again = FALSE
INVARIANT Faithful
CHECK_DEADLOCK FALSE
