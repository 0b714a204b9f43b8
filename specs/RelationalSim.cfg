SPECIFICATION Spec
CONSTANTS MaxOps = 7 MaxRows = 60 Bias = "all"
INVARIANTS Arity JoinLaws Emit
CHECK_DEADLOCK FALSE
