CONSTANTS CheckFirst = TRUE
SPECIFICATION Spec
INVARIANTS AsSaid Careful Honest
PROPERTIES Ends
CHECK_DEADLOCK FALSE
