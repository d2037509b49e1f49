SPECIFICATION Spec
CONSTANT All = FALSE
INVARIANT OutTrusted
