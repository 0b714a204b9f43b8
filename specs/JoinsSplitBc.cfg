SPECIFICATION Spec
CONSTANTS
How = "broadcast"
JoinTypes = {"Inner", "Right", "RightSemi", "RightAnti", "RightMark"}
Filt = TRUE
NA = FALSE
Tasks = 2
MaxL = 3
MaxR = 3
INVARIANT Same
CHECK_DEADLOCK FALSE
