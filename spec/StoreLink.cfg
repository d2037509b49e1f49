SPECIFICATION Spec
CONSTANTS MaxPuts = 5
  CheckName = TRUE
  CheckLink = FALSE
  KeepFile = FALSE
INVARIANT Refines

