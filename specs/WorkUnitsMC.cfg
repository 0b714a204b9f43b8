SPECIFICATION Spec
CONSTANTS
Feeds <- F2
Endless <- E0
Faults <- F2
Units = 2
ChunkSize = 2
Race = TRUE
OneQueue = FALSE
Breaks = TRUE
FailBroken = TRUE
INVARIANTS Own Whole Right
PROPERTIES Ends Closes Prompt
CHECK_DEADLOCK FALSE
