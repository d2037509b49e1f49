SPECIFICATION Spec
CONSTANT All = TRUE
INVARIANT OutTrusted FetchTrusted Order EndsWell
PROPERTY Learns
