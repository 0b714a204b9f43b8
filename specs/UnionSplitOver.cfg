SPECIFICATION Spec
CONSTANTS
MaxBranches = 2
MaxWeight = 2
MaxTasks = 3
FloorFirst = FALSE
INVARIANT Right
CHECK_DEADLOCK FALSE
