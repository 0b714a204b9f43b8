SPECIFICATION Spec
CONSTANTS
Feeds <- F2
Endless <- E0
Faults <- E0
Units = 2
ChunkSize = 2
Race = TRUE
OneQueue = FALSE
Breaks = TRUE
FailBroken = FALSE
INVARIANTS Right
CHECK_DEADLOCK FALSE
