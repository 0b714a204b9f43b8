SPECIFICATION Spec
CONSTANTS Tasks = {1, 2, 3}
Kids <- K_two
MaxFaults = 1
Watch = TRUE
PanicIsErr = FALSE
Cancel = TRUE
INVARIANTS Whole Explained
PROPERTIES Ends Released Stopped
CHECK_DEADLOCK FALSE
