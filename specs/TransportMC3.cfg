SPECIFICATION Spec
CONSTANTS P = 3
Wires <- W_three
Budget = 1
Reads = 2
INVARIANTS MemExact Bounded
PROPERTIES BoundedGrowth Served Cancelled
CHECK_DEADLOCK FALSE
