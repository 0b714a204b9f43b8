SPECIFICATION Spec
CONSTANTS
Feeds <- F2
Endless <- E0
Faults <- E0
Units = 1
ChunkSize = 2
Race = TRUE
OneQueue = TRUE
Breaks = FALSE
FailBroken = TRUE
INVARIANTS Own Whole Right
PROPERTIES Ends Closes Prompt
CHECK_DEADLOCK FALSE
