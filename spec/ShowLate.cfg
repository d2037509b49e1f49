CONSTANTS CheckFirst = FALSE
SPECIFICATION Spec
INVARIANTS Careful
CHECK_DEADLOCK FALSE
