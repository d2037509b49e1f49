SPECIFICATION Spec
CONSTANTS MaxPuts = 5
  CheckName = TRUE
  CheckLink = TRUE
  KeepFile = TRUE
INVARIANT Refines
