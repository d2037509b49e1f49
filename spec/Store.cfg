SPECIFICATION Spec
CONSTANTS MaxPuts = 4
  CheckName = TRUE
  CheckLink = TRUE
  KeepFile = FALSE
INVARIANT Refines
PROPERTY Independent
