SPECIFICATION Spec
CONSTANT Keys = {1, 2}
CONSTANT Msgs = {1, 2}
CONSTANT MaxPkts = 2
INVARIANT Authentic
INVARIANT Complete
PROPERTY Monotone
