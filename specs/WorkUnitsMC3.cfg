SPECIFICATION Spec
CONSTANTS
Feeds <- F3
Endless <- E0
Faults <- E1
Units = 1
ChunkSize = 2
Race = TRUE
OneQueue = FALSE
Breaks = FALSE
FailBroken = TRUE
INVARIANTS Own Whole Right
PROPERTIES Ends Closes Prompt
CHECK_DEADLOCK FALSE
