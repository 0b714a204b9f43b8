SPECIFICATION Spec
CONSTANTS
How = "broadcast"
JoinTypes = {"LeftAnti"}
Filt = FALSE
NA = FALSE
Tasks = 2
MaxL = 3
MaxR = 3
INVARIANT Same
CHECK_DEADLOCK FALSE
