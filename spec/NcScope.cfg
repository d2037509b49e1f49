SPECIFICATION Spec
INVARIANT Scoped Undefined AllVisited
