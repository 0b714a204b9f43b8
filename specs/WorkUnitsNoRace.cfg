SPECIFICATION Spec
CONSTANTS
Feeds <- F1
Endless <- F1
Faults <- E0
Units = 1
ChunkSize = 2
Race = FALSE
OneQueue = FALSE
Breaks = FALSE
FailBroken = TRUE
INVARIANTS Own Whole Right
PROPERTIES Ends Closes Prompt
CHECK_DEADLOCK FALSE
