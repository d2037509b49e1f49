SPECIFICATION Spec
CONSTANT LastDay = 2932896
INVARIANT Counts
