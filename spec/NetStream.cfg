SPECIFICATION Spec
CONSTANTS MaxPuts = 3
  ShortWrites = TRUE
  Retry = TRUE
INVARIANT Faithful
INVARIANT Complete
PROPERTY Delivered
