SPECIFICATION Spec
CONSTANTS MaxPuts = 3
  ShortWrites = TRUE
  Retry = FALSE
INVARIANT Faithful
INVARIANT Complete
