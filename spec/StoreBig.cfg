SPECIFICATION Spec
CONSTANTS MaxPuts = 5
  CheckName = TRUE
  CheckLink = TRUE
  KeepFile = FALSE
INVARIANT Refines
PROPERTY Independent
