SPECIFICATION Spec
CONSTANTS Tasks = {1, 2, 3}
Kids <- K_chain
MaxFaults = 2
Watch = TRUE
PanicIsErr = TRUE
Cancel = TRUE
INVARIANTS Whole Explained
PROPERTIES Ends Released Stopped
CHECK_DEADLOCK FALSE
