SPECIFICATION Spec
CONSTANTS
How = "nopad"
MaxGroups = 3
MaxFiles = 2
MaxBytes = 2
MaxTasks = 3
INVARIANTS Once Even Together
CHECK_DEADLOCK FALSE
