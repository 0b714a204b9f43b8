SPECIFICATION Spec
CONSTANTS Tasks = {1, 2, 3, 4}
Kids <- K_cross
MaxFaults = 1
Watch = TRUE
PanicIsErr = TRUE
Cancel = TRUE
INVARIANTS Whole Explained
CHECK_DEADLOCK FALSE
