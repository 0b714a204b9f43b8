SPECIFICATION Spec
CONSTANTS P = 2
Wires <- W_two
Budget = 0
Reads = 3
INVARIANTS MemExact Bounded
PROPERTIES BoundedGrowth Served Cancelled
CHECK_DEADLOCK FALSE
