SPECIFICATION Spec
CONSTANTS
Feeds <- F1
Endless <- F1
Faults <- F1
Units = 4
ChunkSize = 2
Race = TRUE
OneQueue = FALSE
Breaks = TRUE
FailBroken = TRUE
INVARIANTS Own Whole Right
PROPERTIES Ends Closes Prompt
CHECK_DEADLOCK FALSE
