SPECIFICATION Spec
CONSTANTS
MaxBranches = 3
MaxWeight = 3
MaxTasks = 5
FloorFirst = TRUE
INVARIANT Right
CHECK_DEADLOCK FALSE
