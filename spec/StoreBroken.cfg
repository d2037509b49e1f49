SPECIFICATION Spec
CONSTANTS MaxPuts = 5
  CheckName = FALSE
  CheckLink = TRUE
  KeepFile = FALSE
INVARIANT Refines
