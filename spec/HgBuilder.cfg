SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
INVARIANT Inv
