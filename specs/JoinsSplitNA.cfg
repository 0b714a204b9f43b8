SPECIFICATION Spec
CONSTANTS
How = "hash"
JoinTypes = {"LeftAnti"}
Filt = FALSE
NA = TRUE
Tasks = 2
MaxL = 3
MaxR = 3
INVARIANT Same
CHECK_DEADLOCK FALSE
