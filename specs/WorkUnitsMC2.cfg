SPECIFICATION Spec
CONSTANTS
Feeds <- F2
Endless <- F2
Faults <- F2
Units = 2
ChunkSize = 2
Race = TRUE
OneQueue = FALSE
Breaks = FALSE
FailBroken = TRUE
INVARIANTS Own Whole Right
PROPERTIES Ends Closes Prompt
CHECK_DEADLOCK FALSE
