SPECIFICATION Spec
INVARIANT Secret
INVARIANT Once
PROPERTY Independent
