SPECIFICATION Spec
CONSTANT MaxOps = 4
INVARIANT Faithful
PROPERTY Unchanged
