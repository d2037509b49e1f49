SPECIFICATION Spec
CONSTANT LastDay = 150000
INVARIANT Counts
