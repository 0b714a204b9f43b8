SPECIFICATION Spec
CONSTANTS
MaxBranches = 4
MaxWeight = 4
MaxTasks = 7
FloorFirst = TRUE
INVARIANT Right
CHECK_DEADLOCK FALSE
