SPECIFICATION Spec
CONSTANTS
Chars = {"r", ".", "M"}
MaxKey = 2
Bug = ""
INVARIANT Same
CHECK_DEADLOCK FALSE
